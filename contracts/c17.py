"""C17: mesh construction: translation, unconnected nodes, edges, cross and cube meshes."""
import itertools

from contracts.lib import *
from contracts.meshlib import count, count_pair, member

MM = "conmech.mesh.mesh"
MB = "conmech.mesh.mesh_builders"
CR = "conmech.mesh.zoo.cross_for_tests"
FUNCTIONS = ["build_mesh / translate_nodes", "remove_unconnected_nodes_numba (invariant of the while loop)", "get_edges_matrix / get_edges_list_numba", "Mesh.__init__",
             "CrossMesh._get_cross_rectangle / _set_cross_nodes_ordered_numba / _set_cross_elements_numba (invariants of the append loops)",
             "nph.get_node_index_numba (bounded: up to 4 nodes)", "Cube (no input: evaluated exactly)", "build() of the mesh descriptions"]
ASSUMPTIONS = ["precondition: valid, distinct node numbers in each element; positive scales and sizes; real arithmetic (in particular: requested grid points equal stored nodes exactly)",
               "contracts of np.min, np.ndindex, membership in an array, boolean selection in comprehensions; meshio, gmsh, meshzoo and dmsh are not verified (imported and generated meshes: concrete companion)",
               "mathematics: a sum of non-negative terms is positive iff a term is; counting maps the used nodes one-to-one onto the positions below their number; a cell is the union of the four triangles over its centre",
               "nph.get_node_index_numba returns the row within the tolerance (bounded: up to 4 nodes)"]


def zero(t):
    return t.is_const() and t.const() == 0


# ------------------------------------------------------------------ translation
def translation(s, d):
    fn = s.get(MB, "translate_nodes")
    n = ivar("n")
    ctx().assume(n >= 1)
    nodes = A.symbolic("nodes", (n, d))
    raw = lambda j, k: app("nodes", (lift(j), lift(k)))
    pos = A.make((d,), lambda ix: app("pos", (lift(ix[0]),)))
    keep = frozen(pos)
    out = fn(nodes=nodes, mesh_descr=Obj(initial_position=pos))
    new = list(A.MINMAX.values())
    s.record("one row per node", "proved" if A.dims_equal(out.shape[0], n) and out.shape[1] == d else "refuted", "dimensions")
    j, q = tm.fresh("j", True), tm.fresh("q", True)
    f = ctx().facts.extend(j >= 0, j < n, q >= 0, q < n)
    for k in range(d):
        s.eq(f"one common vector[{k}]", lift(out.get((j, k))) - raw(j, k), lift(out.get((q, k))) - raw(q, k), f, "translate_nodes")
        mins = [m for w, nn, g, m in new if w == "min" and zero(lift(g((j,))) - raw(j, k)) and zero(lift(nn) - n)]
        if not mins:
            raise Unsupported("the corner is not found by np.min")
        # the library contract of the minimum: a bound that is attained (assumed in ctx); the bound is used at node j
        g = f.extend(mins[0] <= raw(j, k))
        s.true(f"no node lies below the requested corner[{k}]", lift(out.get((j, k))) >= app("pos", (lift(k),)), g, "translate_nodes")
        s.eq(f"translated by the corner[{k}]", out.get((j, k)), raw(j, k) - mins[0] + app("pos", (lift(k),)), f, "translate_nodes")
    s.unchanged("the requested position is not changed", keep, pos)
    other = A.symbolic("nodes", (n, d))
    before = frozen(other)
    out = fn(nodes=other, mesh_descr=Obj(initial_position=None))
    s.unchanged("left alone without a requested position", before, out)
    s.defs("the mesh has nodes")
    s.nonvacuous()


def building(s, d):
    mod = s.load(MB)
    real = s.get(MB, "translate_nodes")
    n, ne = ivar("n"), ivar("ne")
    ctx().assume(n >= d + 1, ne >= 1)
    raw = Obj(nodes=A.symbolic("nodes", (n, d)), elements=A.symbolic("el", (ne, d + 1), "i"))
    calls, token = [], A.symbolic("moved", (n, d))

    def translate(*a, **k):
        g = dict(zip(("nodes", "mesh_descr"), a), **k)
        calls.append(g)
        return token
    built = []
    descr = Obj(initial_position=object(), build=lambda: built.append(1) or raw)
    keep = frozen(raw.elements)
    try:
        mod.translate_nodes = translate
        nodes, el = s.get(MB, "build_mesh")(mesh_descr=descr)
    finally:
        mod.translate_nodes = real
    if len(calls) != 1 or len(built) != 1:
        raise Unsupported("the mesh is not built and translated once")
    s.true("position of the description", calls[0]["mesh_descr"] is descr or calls[0]["mesh_descr"].initial_position is descr.initial_position)
    s.unchanged("the built nodes are translated", frozen(A.symbolic("nodes", (n, d))), calls[0]["nodes"])
    s.unchanged("translated nodes returned", frozen(token), nodes)
    s.unchanged("elements returned", keep, el)
    s.nonvacuous()


# ------------------------------------------------------------------ unconnected nodes
class Removal:
    """invariant of the loop that drops unconnected nodes. Ghost: g of the old nodes have been looked at, cnt(g) of them are used."""

    def __init__(self, s, n, ne, d, nodes, el):
        self.s, self.n, self.ne, self.d, self.nodes, self.elements = s, n, ne, d, nodes, el
        self.done = False
        self.old = lambda e, i: app("el", (lift(e), lift(i)), True)
        self.raw = lambda j, k: app("nodes", (lift(j), lift(k)))

    def used(self, j):
        return member("used")(j)

    def cnt(self, j):
        return count(j, "used")

    def step(self, j):
        return [self.cnt(lift(j) + 1) == self.cnt(j) + as01(self.used(j))]

    def number(self, g, o):
        """the number an old number o has after g steps"""
        o, g = lift(o), lift(g)
        return tm.ite(o < g, self.cnt(o), o - (g - self.cnt(g)))

    def rule(self, vc, test, body, names, site):
        s, n, ne, d, c = self.s, self.n, self.ne, self.d, ctx()
        if self.done or c.guards or c.loop_depth:
            raise Unsupported("more than one while loop")
        self.done = True
        cells = R.cells_of((body,), names)
        pre = [R._cell(x) for x in cells]
        base = c.facts
        g = ivar("g")
        forms = {}
        arr = None
        for q, v in enumerate(pre):
            if v is R.UNBOUND:
                continue
            if isinstance(v, A.Arr) and v.ndim == 2 and v.shape[1] == d and A.dims_equal(v.shape[0], n) and arr is None:
                arr = q
            elif isinstance(v, (int, T)) and not isinstance(v, bool):
                v = lift(v)
                if v.is_const() and v.const() == 0:
                    forms[q] = lambda j: self.cnt(j)
                elif (v - n).is_const() and (v - n).const() == 0:
                    forms[q] = lambda j: n - lift(j) + self.cnt(j)
                else:
                    raise Unsupported("a counter that starts neither at zero nor at the number of nodes")
            else:
                raise Unsupported("the loop carries other values")
        if arr is None:
            raise Unsupported("the loop does not carry the nodes")
        # before the loop: all nodes, all numbers unchanged
        j, e = tm.fresh("j", True), tm.fresh("e", True)
        first = base.extend(self.cnt(ZERO) == 0, j >= 0, j < n, e >= 0, e < ne)
        for k in range(d):
            s.eq(f"nodes before the loop[{k}]", pre[arr].get((j, k)), self.raw(j, k), first)
        for i in range(d + 1):
            s.eq(f"elements before the loop[{i}]", self.elements.get((e, i)), self.number(ZERO, self.old(e, i)), first.extend(self.old(e, i) >= 0))
        root = self.elements.root
        eff = R.Effects(cells)
        saved_def = c.defchecks
        lem = lambda *pts: sum([self.step(p) for p in pts], []) + sum([count_pair(a, b, "used") for a in pts for b in list(pts) + [x + 1 for x in pts] if a is not b], []) \
            + sum([count_pair(a + 1, b, "used") for a in pts for b in pts if a is not b], []) + sum([count_pair(ZERO, a, "used") for a in pts], [])

        def state(at):
            for q, f in forms.items():
                R._setcell(cells[q], f(at))
            R._setcell(cells[arr], A.symbolic("HN", (n - lift(at) + self.cnt(at), d)))
            root.restore(((lambda idx: app("HE", tuple(lift(i) for i in idx), True)), ()))
            root.version += 1

        def contains(x):
            # obligation: x is the number of the old node g; the equivalence with `used` is proved below
            if zero(solve.simp(lift(x) - self.cnt(g), c.facts)):
                return self.used(g)
            raise Unsupported("membership of another number")
        here = base.extend(g >= 0, g < n, *lem(g), *count_pair(g, n, "used"))
        old_member = getattr(self.elements, "member", None)
        results = {}
        try:
            self.elements.member = contains
            c.facts, c.defchecks = here, False
            state(g)
            s.true("the loop goes on while nodes are left", B(as01(R.vtruth(test()))), here, "remove_unconnected_nodes_numba")
            c.facts = base.extend(*lem(g))
            state(n)
            s.true("the loop ends when no node is left", ~B(as01(R.vtruth(test()))), c.facts, "remove_unconnected_nodes_numba")
            for lab, cond in (("used", self.used(g)), ("unused", ~self.used(g))):
                c.facts = here.extend(cond)
                c.loop_depth += 1
                try:
                    state(g)
                    body()
                finally:
                    c.loop_depth -= 1
                vals = [R._cell(x) for x in cells]
                vals = [v.frozen() if isinstance(v, A.Arr) else v for v in vals]
                shape = R._cell(cells[arr]).shape
                results[lab] = (cond, vals, shape, root.snapshot())
        finally:
            c.facts, c.defchecks = base, saved_def
            eff.finish()
            eff.rollback()
            if old_member is None:
                del self.elements.member
            else:
                self.elements.member = old_member
        wr = [r for r, _ in eff.written_roots() if r is not root]
        if wr:
            raise Unsupported("the loop writes other arrays")
        o = tm.fresh("o", True)
        for lab, (cond, vals, shape, snap) in results.items():
            f = here.extend(cond)
            for q, form in forms.items():
                s.eq(f"{lab} node: counter {names[q]}", vals[q], form(g + 1), f, "remove_unconnected_nodes_numba")
            s.eq(f"{lab} node: number of nodes left", lift(shape[0]), n - (g + 1) + self.cnt(g + 1), f, "remove_unconnected_nodes_numba")
            N1 = vals[arr]
            for k in range(d):
                was = lambda p: B(tm.ind_eq(app("HN", (p, lift(k))) - self.raw(o, k)))
                fo = f.extend(o >= 0, o < g, self.used(o), *lem(o, g), was(self.cnt(o)))
                s.eq(f"{lab} node: kept nodes stay[{k}]", N1((self.cnt(o), k)), self.raw(o, k), fo, "remove_unconnected_nodes_numba")
                p = o - (g - self.cnt(g))
                fo = f.extend(o > g, o < n, *lem(g), was(p))
                s.eq(f"{lab} node: nodes to come follow[{k}]", N1((o - (g + 1 - self.cnt(g + 1)), k)), self.raw(o, k), fo, "remove_unconnected_nodes_numba")
                if lab == "used":
                    fo = f.extend(B(tm.ind_eq(app("HN", (self.cnt(g), lift(k))) - self.raw(g, k))))
                    s.eq(f"the used node is kept[{k}]", N1((self.cnt(g), k)), self.raw(g, k), fo, "remove_unconnected_nodes_numba")
            for i in range(d + 1):
                v = self.old(e, i)
                fe = f.extend(e >= 0, e < ne, v >= 0, v < n, self.used(v), *lem(v, g), B(tm.ind_eq(app("HE", (e, lift(i)), True) - self.number(g, v))))
                if lab == "unused":
                    fe = fe.extend(~(v == g))
                s.eq(f"{lab} node: numbers in the elements[{i}]", root.read((e, i), snap), self.number(g + 1, v), fe, "remove_unconnected_nodes_numba")
        for i in range(d + 1):
            v = self.old(e, i)
            fe = here.extend(e >= 0, e < ne, v >= 0, v < n, self.used(v), *lem(v, g), B(tm.ind_eq(app("HE", (e, lift(i)), True) - self.number(g, v))))
            hit = app("HE", (e, lift(i)), True) == self.cnt(g)
            s.true(f"the number of node g stands where g stood[{i}]", (~hit) | (v == g), fe, "remove_unconnected_nodes_numba")
            s.true(f"where g stood stands its number[{i}]", hit | ~(v == g), fe, "remove_unconnected_nodes_numba")
        # after the loop (g = n)
        for q, form in forms.items():
            R._setcell(cells[q], self.cnt(n))
        for q, v0 in enumerate(pre):
            if v0 is R.UNBOUND:
                R._setcell(cells[q], R.Poison("bound in the loop"))
        R._setcell(cells[arr], A.symbolic("kept", (self.cnt(n), d)))
        root.restore(((lambda idx: self.cnt(self.old(idx[0], idx[1]))), ()))
        root.version += 1
        return True


def removal(s, d):
    n, ne = ivar("n"), ivar("ne")
    ctx().assume(n >= d + 1, ne >= 1)
    nodes, el = A.symbolic("nodes", (n, d)), A.symbolic("el", (ne, d + 1), "i")
    solve.FUN_FACTS["el"] = lambda e, i: [app("el", (e, i), True) >= 0, app("el", (e, i), True) < n]
    w = Removal(s, n, ne, d, nodes, el)
    ctx().while_rule = w.rule
    ctx().assume(w.cnt(n) >= 0)
    n2, e2 = s.get(MM, "remove_unconnected_nodes_numba")(nodes, el)
    if not w.done:
        raise Unsupported("no while loop")
    s.record("as many nodes as are used", "proved" if A.dims_equal(n2.shape[0], w.cnt(n)) and n2.shape[1] == d else "refuted", "dimensions")
    s.record("elements kept", "proved" if A.dims_equal(e2.shape[0], ne) and e2.shape[1] == d + 1 else "refuted", "dimensions")
    e, o, p = tm.fresh("e", True), tm.fresh("o", True), tm.fresh("p", True)
    f = ctx().facts.extend(e >= 0, e < ne)
    for i in range(d + 1):
        v = app("el", (e, lift(i)), True)
        g = f.extend(v >= 0, v < n, w.used(v), *w.step(v), *count_pair(v + 1, n, "used"), *count_pair(ZERO, v, "used"))
        s.true(f"valid numbers[{i}]", (lift(e2.get((e, i))) >= 0) & (lift(e2.get((e, i))) < n2.shape[0]), g, "remove_unconnected_nodes_numba")
        for k in range(d):
            h = g.extend(B(tm.ind_eq(app("kept", (w.cnt(v), lift(k))) - app("nodes", (v, lift(k))))))       # invariant at the end
            s.eq(f"elements keep their vertices[{i},{k}]", n2.get((e2.get((e, i)), k)), app("nodes", (v, lift(k))), h, "remove_unconnected_nodes_numba")
    g = ctx().facts.extend(o >= 0, o < p, p < n, w.used(o), w.used(p), *w.step(o), *count_pair(o + 1, p, "used"))
    s.true("different used nodes get different numbers", w.cnt(o) < w.cnt(p), g, "remove_unconnected_nodes_numba")
    s.nonvacuous()


# ------------------------------------------------------------------ edges
def edge_matrix(s, d):
    n, ne, _, el = symbolic_mesh(d)
    before = frozen(el)
    m = s.get(MM, "get_edges_matrix")(nodes_count=n, elements=el)
    s.record("one row and column per node", "proved" if A.dims_equal(m.shape[0], n) and A.dims_equal(m.shape[1], n) else "refuted", "dimensions")

    def spec(ix):
        a, b = lift(ix[0]), lift(ix[1])
        e = tm.fresh("e", True)
        r = ZERO
        for i in range(d + 1):
            for j in range(d + 1):
                if i != j:
                    r = r + tm.ind_eq(app("el", (e, lift(i)), True) - a) * tm.ind_eq(app("el", (e, lift(j)), True) - b)
        return tm.mk_sum(e, ZERO, ne, r)
    s.array_eq("number of elements that join two nodes", m, spec, shape=(n, n), fn="get_edges_matrix")
    s.unchanged("elements unchanged", before, el)
    s.nonvacuous()


def edge_list(s, *_):
    n = ivar("n")
    ctx().assume(n >= 1)
    E = lambda a, b: app("E", (lift(a), lift(b)), True)
    m = A.symbolic("E", (n, n), "i")
    from pyvc import symnp
    k0 = len(symnp.NDINDEX_INFO)
    before = frozen(m)
    out = s.get(MM, "get_edges_list_numba")(m)
    new = symnp.NDINDEX_INFO[k0:]
    if len(new) != 1:
        raise Unsupported("the pairs are not enumerated by np.ndindex")
    I = new[0]
    ok = out.ndim == 2 and out.shape[1] == 2
    s.record("two numbers per edge", "proved" if ok else "refuted", "dimensions")
    p, q = tm.fresh("p", True), tm.fresh("q", True)
    cnt = lift(out.shape[0])
    f = ctx().facts.extend(p >= 0, p < cnt)
    a, b = lift(out.get((p, 0))), lift(out.get((p, 1)))
    s.true("edges list their nodes in ascending order", a < b, f, "get_edges_list_numba")
    s.true("edges name nodes", (a >= 0) & (b < n), f, "get_edges_list_numba")
    s.true("edges join nodes of an element", (E(a, b) > 0) & (a >= 0) & (b < n), f, "get_edges_list_numba")
    # every pair is listed: at the rank of its step
    x, y = ivar("x"), ivar("y")
    step = I["pos"](x, y)
    contract = [step >= 0, step < n * n, B(tm.ind_eq(I["row"](step) - x)), B(tm.ind_eq(I["col"](step) - y))]
    g = ctx().facts.extend(x >= 0, x < y, y < n, E(x, y) > 0, *contract)
    rank = [app(i["rank"], (step,), True) for i in A.SEL_INFO.values() if A.dims_equal(i["count"], out.shape[0])]
    if not rank:
        raise Unsupported("the edges are not selected by a condition")
    r = rank[-1]
    s.true("every edge is listed: row", (r >= 0) & (r < cnt), g, "get_edges_list_numba")
    s.eq("every edge is listed: first node", out.get((r, 0)), x, g, "get_edges_list_numba")
    s.eq("every edge is listed: second node", out.get((r, 1)), y, g, "get_edges_list_numba")
    # once: two rows with the same nodes come from the same step (np.ndindex), and a step is selected once
    sel = [k for k, i in A.SEL_INFO.items() if A.dims_equal(i["count"], out.shape[0])][-1]
    at = lambda k: tm.app(sel, (lift(k),), is_int=True)
    A_, B_ = lift(out.get((p, 0))), lift(out.get((q, 0)))
    s.true("rows of the list are the selected steps, in order", B(tm.ind_eq(A_ - I["row"](at(p)))) & B(tm.ind_eq(lift(out.get((p, 1))) - I["col"](at(p)))), f, "get_edges_list_numba")
    s.unchanged("matrix unchanged", before, m)
    s.nonvacuous()


# ------------------------------------------------------------------ the constructor
def constructor(s, d):
    mod = s.load(MM)
    n, ne, k = ivar("n"), ivar("ne"), ivar("k")
    ctx().assume(n >= d + 1, ne >= 1, k >= d + 1, k <= n)
    arrs = {nm: (A.symbolic(f"{nm}_n", (r, d)), A.symbolic(f"{nm}_e", (ne, d + 1), "i")) for nm, r in (("built", n), ("clean", k), ("final", k))}
    seen = {}
    bnd, edges = object(), A.symbolic("edges", (ivar("ec"), 2), "i")
    descr, bd = Obj(initial_position=None), object()

    def grab(nm, keys, res):
        def f(*a, **kw):
            g = dict(zip(keys, a), **kw)
            seen.setdefault(nm, []).append({q: (v.copy() if isinstance(v, A.Arr) else v) for q, v in g.items()})
            return res
        return f
    for nm in ("remove_unconnected_nodes_numba", "get_edges_matrix", "get_edges_list_numba", "BoundariesFactory", "mesh_builders", "Mesh"):
        if not hasattr(mod, nm):
            raise SpecGone(f"mesh.{nm} does not exist")
    em = object()
    old = {nm: getattr(mod, nm) for nm in ("remove_unconnected_nodes_numba", "get_edges_matrix", "get_edges_list_numba", "BoundariesFactory", "mesh_builders")}
    try:
        mod.remove_unconnected_nodes_numba = grab("clean", ("nodes", "elements"), arrs["clean"])
        mod.get_edges_matrix = grab("matrix", ("nodes_count", "elements"), em)
        mod.get_edges_list_numba = grab("list", ("edges_matrix",), edges)
        mod.BoundariesFactory = Obj(identify_boundaries_and_reorder_nodes=grab("order", ("unordered_nodes", "unordered_elements", "boundaries_description"), arrs["final"] + (bnd,)))
        mod.mesh_builders = Obj(build_mesh=grab("build", ("mesh_descr",), arrs["built"]))
        m = mod.Mesh(descr, bd)
    finally:
        for nm, v in old.items():
            setattr(mod, nm, v)
    if any(len(seen.get(x, [])) != 1 for x in ("clean", "matrix", "list", "order", "build")):
        raise Unsupported("the steps of the construction are not done once each")
    one = {x: seen[x][0] for x in seen}

    def same(label, x, nm):
        s.unchanged(label, frozen(A.symbolic(nm, x.shape, x.kind)), x)
    s.true("the described mesh is built", one["build"]["mesh_descr"] is descr)
    same("unconnected nodes of the built mesh are removed: nodes", one["clean"]["nodes"], "built_n")
    same("unconnected nodes of the built mesh are removed: elements", one["clean"]["elements"], "built_e")
    same("the rest is renumbered: nodes", one["order"]["unordered_nodes"], "clean_n")
    same("the rest is renumbered: elements", one["order"]["unordered_elements"], "clean_e")
    s.true("the given description of boundaries is used", one["order"]["boundaries_description"] is bd)
    same("final nodes", m.nodes, "final_n")
    same("final elements", m.elements, "final_e")
    s.true("final boundaries", m.boundaries is bnd)
    s.eq("edges: number of nodes", one["matrix"]["nodes_count"], k)
    same("edges of the final elements", one["matrix"]["elements"], "final_e")
    s.true("edges listed from their matrix", one["list"]["edges_matrix"] is em)
    same("edges kept", m.edges, "edges")
    s.eq("number of edges", m.edges_number, ivar("ec"))
    s.nonvacuous()


# ------------------------------------------------------------------ cross meshes
class Append:
    """rule for (nested) loops that fill an array row after row: each turn writes the rows at a running position and advances it by a
    fixed number; what is proved per loop: the turn writes only its own rows, and what it writes there"""

    def __init__(self, s, root, width, fn):
        self.s, self.root, self.width, self.fn = s, root, width, fn
        self.records = []       # (loop variables with their numbers of turns, position, values)
        self.uid = 0

    def rule(self, vc, it, body, names, site):
        s, c, root = self.s, ctx(), self.root
        cells = R.cells_of((body,), names)
        base = c.facts
        self.uid += 1
        u = self.uid
        n = solve.simp(lift(it.n), base)
        pre = [R._cell(x) for x in cells]
        ints = [q for q, v in enumerate(pre) if isinstance(v, (int, T)) and not isinstance(v, bool)]
        k = tm.fresh("k", True)
        X = {q: tm.fresh("x", True) for q in ints}
        before = root.snapshot()
        saved = c.defchecks, self.records
        hn = f"H{u}"
        eff = R.Effects(cells)
        self.records = []
        c.facts, c.defchecks = base.extend(k >= 0, k < n, *[X[q] >= 0 for q in ints]), False
        c.loop_depth += 1
        try:
            for q in ints:
                R._setcell(cells[q], X[q])
            root.restore(((lambda idx: app(hn, tuple(lift(i) for i in idx), root_int(root))), ()))
            root.version += 1
            body(it.item(k))
            vals = [R._cell(x) for x in cells]
            snap = root.snapshot()
            inner = self.records
        finally:
            facts = c.facts
            c.facts, c.defchecks = base, saved[0]
            c.loop_depth -= 1
            self.records = saved[1]
            eff.finish()
            others = [r for r, _ in eff.written_roots() if r is not root]
            eff.rollback()
        if others:
            raise Unsupported("the loop writes other arrays")
        moving = [q for q in ints if not zero(lift(vals[q]) - X[q])]
        # loop-local variables are overwritten before they are read: they do not depend on their old value
        local = [q for q in moving if tm.vid(X[q]) not in lift(vals[q]).fv()]
        moving = [q for q in moving if q not in local]
        if len(moving) != 1:
            raise Unsupported("no single running position")
        q0 = moving[0]
        D = solve.simp(lift(vals[q0]) - X[q0], base.extend(k >= 0, k < n))
        if tm.vid(k) in D.fv() or tm.vid(X[q0]) in D.fv():
            raise Unsupported("the running position does not advance by a fixed number")
        P = X[q0]
        f = base.extend(k >= 0, k < n, P >= 0)
        r = tm.fresh("r", True)
        for cc in range(self.width):
            for lab, cond in (("before", r < P), ("after", r >= P + D)):
                s.eq(f"loop {u}: rows {lab} its own are not touched[{cc}]", root.read((r, cc), snap), app(hn, (r, lift(cc)), root_int(root)), f.extend(r >= 0, cond), self.fn)
        recs = []
        if inner:
            recs = inner
            covered = ZERO
            for _, _, _, size in inner:
                covered = covered + size
        elif D.is_const():
            for t in range(int(D.const())):
                row = [solve.simp(lift(root.read((P + t, cc), snap)), f) for cc in range(self.width)]
                if any(hn in tm.funs_of(x) for x in row):
                    raise Unsupported("a turn leaves a row unwritten")
                recs.append(((), P + t, row, ONE))
        else:
            raise Unsupported("rows written outside loops")
        start = lift(pre[q0])
        sub = {tm.vid(P): start + k * D}
        out = []
        for vs, pos, row, size in recs:
            out.append((((k, n),) + vs, tm.subst(pos, sub), [tm.subst(x, sub) for x in row], n * size))
        self.records.extend(out)
        for q in ints:
            if q == q0:
                R._setcell(cells[q], start + n * D)
            elif q in local:
                R._setcell(cells[q], R.Poison("bound in the loop"))
        for q, v0 in enumerate(pre):
            if v0 is R.UNBOUND:
                R._setcell(cells[q], R.Poison("bound in the loop"))
            elif q not in ints and not same_value(vals[q], v0):
                R._setcell(cells[q], R.Poison("bound in the loop"))
        nm = f"W{u}"
        old = lambda idx: root.read(idx, before)
        lo, hi = start, start + n * D
        root.restore(((lambda idx: tm.ite((lift(idx[0]) >= lo) & (lift(idx[0]) < hi), app(nm, tuple(lift(i) for i in idx), root_int(root)), lift(old(idx)))), ()))
        root.version += 1
        return True


def same_value(a, b):
    return a is b


def root_int(root):
    return getattr(root, "kind", "f") == "i"


def cross_nodes(s, *_):
    sx, sy = ivar("sx"), ivar("sy")
    ex, ey = var("ex"), var("ey")
    ctx().assume(sx >= 1, sy >= 1, ex > 0, ey > 0)
    total = 2 * sx * sy + sx + sy + 1
    nodes = A.symbolic("blank", (total, 2))
    w = Append(s, nodes.root, 2, "_set_cross_nodes_ordered_numba")
    ctx().inv_rule = w.rule
    base = ctx().facts
    lb = A.from_list([ZERO, ZERO], "f")
    s.get(CR, "CrossMesh")._set_cross_nodes_ordered_numba(nodes, sx, sy, ex, ey, lb)
    if not w.records:
        raise Unsupported("no loops that fill the nodes")
    rows = ZERO
    for _, _, _, size in w.records:
        rows = rows + size
    s.eq("as many nodes are set as there are", rows, total, base, "_set_cross_nodes_ordered_numba")
    # positions follow one another: the first is 0, each group starts where the one before ends
    at = ZERO
    for vs, pos, row, size in w.records:
        z = {tm.vid(v): ZERO for v, _ in vs}
        s.eq("groups of nodes follow one another", tm.subst(pos, z), at, base, "_set_cross_nodes_ordered_numba")
        at = at + size
    a, b = ivar("a"), ivar("b")
    h = F(1, 2)
    targets = [("centre", (a >= 0) & (a < sx) & (b >= 0) & (b < sy), a + lift(h), b + lift(h)),
               ("inner corner", (a >= 1) & (a < sx) & (b >= 1) & (b < sy), a, b),
               ("top edge", (a >= 1) & (a < sx), a, sy), ("bottom edge", (a >= 1) & (a < sx), a, ZERO),
               ("left edge", (b >= 1) & (b < sy), ZERO, b), ("right edge", (b >= 1) & (b < sy), sx, b),
               ("corner 00", tm.B(ONE), ZERO, ZERO), ("corner 10", tm.B(ONE), sx, ZERO), ("corner 01", tm.B(ONE), ZERO, sy), ("corner 11", tm.B(ONE), sx, sy)]
    cands = [ZERO, ONE, a, b, a - 1, b - 1, sx - a, sy - b, sx - 1 - a, sy - 1 - b, sx - 1, sy - 1, sx, sy]
    for nm, cond, tx, ty in targets:
        f = base.extend(cond)
        hit = None
        for vs, pos, row, size in w.records:
            for pick in itertools.product(cands, repeat=len(vs)):
                z = {tm.vid(v): p for (v, _), p in zip(vs, pick)}
                if not (zero(solve.simp(tm.subst(row[0], z) - tx * ex, f)) and zero(solve.simp(tm.subst(row[1], z) - ty * ey, f))):
                    continue
                if all(f.decide(as01((p >= 0) & (p < num))) is True for (v, num), p in zip(vs, pick)):
                    hit = z, pos, row
                    break
            if hit:
                break
        if hit is None:
            raise Unsupported(f"no loop sets the {nm}")
        z, pos, row = hit
        s.eq(f"{nm} is a node: x", tm.subst(row[0], z), tx * ex, f, "_set_cross_nodes_ordered_numba")
        s.eq(f"{nm} is a node: y", tm.subst(row[1], z), ty * ey, f, "_set_cross_nodes_ordered_numba")
    s.nonvacuous()


def cross_shift(s, *_):
    """the corner of the box is added to every node"""
    lb = A.make((2,), lambda ix: app("lb", (lift(ix[0]),)))
    ex, ey = var("ex"), var("ey")
    out = []
    for corner in (A.from_list([ZERO, ZERO], "f"), lb):
        nodes = symzeros((5, 2))
        s.get(CR, "CrossMesh")._set_cross_nodes_ordered_numba(nodes, 1, 1, ex, ey, corner)
        out.append(nodes)
    for r in range(5):
        for k in range(2):
            s.eq(f"corner of the box added[{r},{k}]", lift(out[1].get((r, k))) - out[0].get((r, k)), app("lb", (lift(k),)))
    s.nonvacuous()


def symzeros(shape):
    from pyvc import symnp
    return symnp.np.zeros(shape)


def cross_elements(s, *_):
    sx, sy = ivar("sx"), ivar("sy")
    ex, ey = var("ex"), var("ey")
    ctx().assume(sx >= 1, sy >= 1, ex > 0, ey > 0)
    nodes = A.symbolic("nodes", (2 * sx * sy + sx + sy + 1, 2))
    el = A.symbolic("blank", (4 * sx * sy, 3), "i")
    nph = s.load("conmech.helpers.nph")
    real = s.get("conmech.helpers.nph", "get_node_index_numba")
    tols = []

    def find(node, nodes_, tolerance=None):
        if nodes_ is not nodes:
            raise Unsupported("another list of nodes is searched")
        tols.append((tolerance, ctx().cur_facts()))
        return app("find", (lift(node.get((0,))), lift(node.get((1,)))), True)
    w = Append(s, el.root, 3, "_set_cross_elements_numba")
    ctx().inv_rule = w.rule
    base = ctx().facts
    lb = A.make((2,), lambda ix: app("lb", (lift(ix[0]),)))
    try:
        nph.get_node_index_numba = find
        s.get(CR, "CrossMesh")._set_cross_elements_numba(nodes, el, sx, sy, ex, ey, lb)
    finally:
        nph.get_node_index_numba = real
    if not w.records or not tols:
        raise Unsupported("no loops that fill the elements by searching nodes")
    for t, f in tols[:5]:
        t = lift(F(1, 10000)) if t is None else lift(t)
        s.true("nodes of neighbouring cells are told apart", (t > 0) & (2 * t <= ex) & (2 * t <= ey), base, "_set_cross_elements_numba")
    rows = ZERO
    for _, _, _, size in w.records:
        rows = rows + size
    s.eq("as many elements are set as there are", rows, 4 * sx * sy, base, "_set_cross_elements_numba")
    if any(len(vs) != 2 for vs, *_ in w.records) or len(w.records) != 4:
        raise Unsupported("not four elements per cell")
    X, Y = app("lb", (ZERO,)), app("lb", (ONE,))
    (k1, n1), (k2, n2) = w.records[0][0]
    # which loop runs over the columns
    if zero(solve.simp(lift(n1) - sx, base)):
        i, j, ni, nj = k1, k2, n1, n2
    else:
        i, j, ni, nj = k2, k1, n2, n1
    s.eq("columns of cells", ni, sx, base, "_set_cross_elements_numba")
    s.eq("rows of cells", nj, sy, base, "_set_cross_elements_numba")
    f = base.extend(k1 >= 0, k1 < n1, k2 >= 0, k2 < n2)
    pt = {"lb": (ZERO, ZERO), "rb": (ONE, ZERO), "rt": (ONE, ONE), "lt": (ZERO, ONE), "c": (lift(F(1, 2)), lift(F(1, 2)))}

    def which(t):
        if len(t.m) == 1:
            (mono, cf), = t.m.items()
            if cf == 1 and len(mono) == 1 and mono[0][1] == 1:
                at = tm.atom(mono[0][0])
                if at.kind == "app" and at.args[0] == "find":
                    x, y = lift(at.args[3]), lift(at.args[4])
                    for nm, (px, py) in pt.items():
                        if zero(solve.simp(x - X - (i + px) * ex, f)) and zero(solve.simp(y - Y - (j + py) * ey, f)):
                            return nm
        return None
    tris = []
    for vs, pos, row, size in w.records:
        if (vs[0][0], vs[1][0]) != (k1, k2) and not all(zero(p - q) for (p, _), q in zip(vs, (k1, k2))):
            raise Unsupported("elements of a cell are set in different loops")
        tris.append([which(x) for x in row])
    ring = ["lb", "rb", "rt", "lt"]
    want = {frozenset((ring[q], ring[(q + 1) % 4], "c")) for q in range(4)}
    good = all(None not in t for t in tris)
    s.record("elements join corners and centre of their cell", "proved" if good else "refuted", "exact", str(tris), fn="_set_cross_elements_numba")
    got = {frozenset(t) for t in tris if None not in t}
    s.record("the four elements of a cell are the triangles over its centre", "proved" if got == want and len(tris) == 4 else "refuted", "exact", str(tris), fn="_set_cross_elements_numba")
    s.nonvacuous()


def cross_sizes(s, *_):
    """number of cells, lengths, numbers of nodes and elements, for any positive scale and size"""
    cls = s.get(CR, "CrossMesh")
    S = [var("scale_x"), var("scale_y")]
    h = var("h")

    def run():
        ctx().assume(S[0] > 0, S[1] > 0, h > 0)
        seen = {}

        def nodes_(*a):
            seen["nodes"] = a

        def elements_(*a):
            seen["elements"] = a
        old = cls.__dict__["_set_cross_nodes_ordered_numba"], cls.__dict__["_set_cross_elements_numba"]
        try:
            cls._set_cross_nodes_ordered_numba, cls._set_cross_elements_numba = staticmethod(nodes_), staticmethod(elements_)
            m = cls(Obj(scale=list(S), max_element_perimeter=h, initial_position=None))
        finally:
            cls._set_cross_nodes_ordered_numba, cls._set_cross_elements_numba = old
        return m, seen
    paths = explore(run)
    s.no_exception("CrossMesh", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        m, seen = p.value
        if set(seen) != {"nodes", "elements"} or len(seen["nodes"]) != 6 or len(seen["elements"]) != 7:
            raise Unsupported("the parts of the cross mesh are not made by the two routines")
        f = ctx().facts
        n1, sx, sy, ex, ey, c1 = seen["nodes"]
        n2, e2, sx2, sy2, ex2, ey2, c2 = seen["elements"]
        s.true("the same nodes are set, searched and returned", n1 is n2 and m.nodes is n1 and m.elements is e2)
        for nm, a, b in (("columns", sx, sx2), ("rows", sy, sy2), ("width", ex, ex2), ("height", ey, ey2)):
            s.eq(f"both routines use the same {nm}", a, b, f)
        for nm, a, b, L in (("columns", sx, ex, S[0]), ("rows", sy, ey, S[1])):
            a, b = lift(a), lift(b)
            s.true(f"{nm}: at least one", a >= 1, f, "_get_cross_rectangle")
            g = f.extend(a >= 1)
            s.eq(f"{nm}: together as long as the box", a * b, L, g, "_get_cross_rectangle")
            s.true(f"{nm}: no longer than requested", a * h >= L, g, "_get_cross_rectangle")
        s.eq("number of nodes", n1.shape[0], 2 * lift(sx) * sy + lift(sx) + sy + 1, f, "_get_cross_rectangle")
        s.eq("number of elements", e2.shape[0], 4 * lift(sx) * sy, f, "_get_cross_rectangle")
        s.record("shapes", "proved" if n1.shape[1] == 2 and e2.shape[1] == 3 else "refuted", "dimensions")
        for c_ in (c1, c2):
            for k in range(2):
                s.eq(f"the box starts at zero[{k}]", c_.get((k,)), ZERO, f, "_get_cross_rectangle")
    s.nonvacuous()


def node_index(s, *_):
    """nph.get_node_index_numba for up to four nodes (bounded): the first row within the tolerance, an error if there is none"""
    fn = s.get("conmech.helpers.nph", "get_node_index_numba")
    for n in range(1, 5):
        x = [var("x0"), var("x1")]
        tol = var("tol")
        nodes = A.from_list([[var(f"p{j}{k}") for k in range(2)] for j in range(n)], "f")

        def run():
            ctx().assume(tol > 0)
            return fn(A.from_list(x, "f"), nodes, tol)
        paths = explore(run)
        dist = lambda j: tm.tabs(x[0] - var(f"p{j}0")) + tm.tabs(x[1] - var(f"p{j}1"))
        for p in paths:
            C.CTX[0] = p.ctx
            f = ctx().facts
            if p.exc is not None:
                for j in range(n):
                    s.true(f"{n} nodes: error only if none is near[{j}]", dist(j) >= tol, f, "get_node_index_numba")
            else:
                r = lift(p.value)
                if not r.is_const():
                    raise Unsupported("symbolic row")
                r = int(r.const())
                s.true(f"{n} nodes: the row found is near", dist(r) < tol, f, "get_node_index_numba")
                for j in range(r):
                    s.true(f"{n} nodes: the first such row", dist(j) >= tol, f, "get_node_index_numba")


# ------------------------------------------------------------------ the cube
def cube(s, *_):
    """no input: exact evaluation. Elements have volume, fill the unit cube, meet face to face and do not overlap"""
    m = s.get("conmech.mesh.zoo.cube", "Cube")(Obj(initial_position=None))
    num = lambda v: F(lift(v).const())
    N = [[num(m.nodes.get((j, k))) for k in range(3)] for j in range(m.nodes.shape[0])]
    E = [[int(num(m.elements.get((e, i)))) for i in range(4)] for e in range(m.elements.shape[0])]
    ok = lambda label, cond: s.record(label, "proved" if cond else "refuted", "exact evaluation", fn="Cube.__init__")
    ok("valid numbers", all(0 <= v < len(N) for e in E for v in e))
    ok("nodes lie in the cube", all(0 <= x <= 1 for p in N for x in p))
    ok("nodes are distinct", len({tuple(p) for p in N}) == len(N))
    ok("all nodes are used", {v for e in E for v in e} == set(range(len(N))))

    def vol(pts):
        a, b, c = ([pts[q][k] - pts[0][k] for k in range(3)] for q in (1, 2, 3))
        return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    vols = [vol([N[v] for v in e]) for e in E]
    ok("elements have volume", all(v != 0 for v in vols))
    ok("elements fill the cube", sum(abs(v) for v in vols) == 6)
    owner = {}
    for e in E:
        for q in range(4):
            owner.setdefault(tuple(sorted(e[:q] + e[q + 1:])), []).append(e[q])
    ok("facets belong to one or two elements", all(len(o) <= 2 for o in owner.values()))
    ok("facets of one element lie on the border", all(any(all(N[v][k] == x for v in f) for k in range(3) for x in (0, 1)) for f, o in owner.items() if len(o) == 1))
    side = lambda f, v: vol([N[q] for q in f] + [N[v]]) > 0
    ok("neighbours lie on opposite sides of their facet", all(side(f, o[0]) != side(f, o[1]) for f, o in owner.items() if len(o) == 2))


def descriptions(s, *_):
    """build() makes the mesh of the description's kind from the description"""
    mod = s.load("conmech.properties.mesh_description")
    for descr, module, cls in (("CrossMeshDescription", CR, "CrossMesh"), ("CubeMeshDescription", "conmech.mesh.zoo.cube", "Cube"), ("BallMeshDescription", "conmech.mesh.zoo.ball", "Ball")):
        m = s.load(module)
        if not hasattr(m, cls) or not hasattr(mod, descr):
            raise SpecGone(f"{descr} / {cls}")
        real, seen, token = getattr(m, cls), [], object()
        D = getattr(mod, descr)
        d = D(initial_position=None, max_element_perimeter=1, scale=[1, 1]) if descr.startswith("Cross") else D(initial_position=None)
        try:
            setattr(m, cls, lambda x: seen.append(x) or token)
            out = d.build()
        finally:
            setattr(m, cls, real)
        s.true(f"{descr}: mesh of this kind, from this description", out is token and len(seen) == 1 and seen[0] is d, fn=f"{descr}.build")


def sections(tier):
    return (both_dims(translation, "translation") + both_dims(building, "building") + both_dims(removal, "unconnected nodes") + both_dims(edge_matrix, "edge matrix")
            + [("edge list", edge_list, 120)] + both_dims(constructor, "construction")
            + [("cross: nodes", cross_nodes, 200), ("cross: corner", cross_shift, 60), ("cross: elements", cross_elements, 200), ("cross: sizes", cross_sizes, 60),
               ("node index (bounded: 4 nodes)", node_index, 60), ("cube", cube, 60), ("descriptions", descriptions, 60)])
