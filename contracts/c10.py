"""C10: boundary facets, renumbering and classification of an arbitrary mesh."""
from contracts.lib import *
from contracts.meshlib import *

FUNCTIONS = ["identify_surfaces_numba / get_boundary_surfaces / extract_unique_elements / extract_unique_indices",
             "apply_predicate_to_boundary_nodes / reorder / reorder_numba (loop invariant) / reorder_boundary_nodes",
             "BoundariesFactory.identify_boundaries_and_reorder_nodes / apply_predicate_to_surfaces / index_size",
             "Boundaries: counts and boundary_indices; Mesh: counts and index ranges; BoundariesDescription"]
ASSUMPTIONS = ["precondition: valid, distinct node numbers in each element; every mesh has at least one boundary facet; indicators return booleans and depend on the point only",
               "contracts of np.unique, ndarray.sort and boolean indexing",
               "mathematics: an injective map of a finite set into itself is onto; a set counted twice has one size; which nodes lie on the boundary does not depend on the numbering"]


def elements(name, ne, d, n, asc=False):
    el = A.symbolic(name, (ne, d + 1), "i")

    def ff(e, i):
        x = [app(name, (e, lift(j)), True) for j in range(d + 1)]
        if asc:
            return [x[0] >= 0, x[-1] < n] + [x[j] < x[j + 1] for j in range(d)]
        return [y >= 0 for y in x] + [y < n for y in x] + [~(x[j] == x[q]) for j in range(d + 1) for q in range(j)]
    solve.FUN_FACTS[name] = ff
    return el


def enumeration(s, d):
    """identify_surfaces_numba lists, for every element and each of its nodes, the other nodes and that node"""
    n, ne = ivar("n"), ivar("ne")
    ctx().assume(n >= d + 1, ne >= 1)
    el = elements("el", ne, d, n, True)
    before = frozen(el)
    surf, opp = s.get(BF, "identify_surfaces_numba")(sorted_elements=el)
    ok = A.dims_equal(surf.shape[0], (d + 1) * ne) and surf.shape[1] == d and A.dims_equal(opp.shape[0], (d + 1) * ne)
    s.record("one row per element and node", "proved" if ok else "refuted", "dimensions")
    e = tm.fresh("e", True)
    f = ctx().facts.extend(e >= 0, e < ne)
    # the rows may come in any order of (element, node): find the row of each pair
    orders = {"node by node": lambda j: j * ne + e, "element by element": lambda j: (d + 1) * e + j}
    for j in range(d + 1):
        for nm, pos in orders.items():
            tmp = harness.Section("candidate")
            r = pos(j)
            tmp.eq("", opp.get((r,)), app("el", (e, lift(j)), True), f)
            if tmp.results[0]["status"] == "proved" or nm == "element by element":
                break
        else:
            nm = "node by node"
        r = orders["node by node"](j) if tmp.results[0]["status"] != "proved" else orders[nm](j)
        s.eq(f"omitted node {j}", opp.get((r,)), app("el", (e, lift(j)), True), f, "identify_surfaces_numba")
        rest = [q for q in range(d + 1) if q != j]
        for q in range(d):
            s.eq(f"facet without node {j}[{q}]", surf.get((r, q)), app("el", (e, lift(rest[q])), True), f, "identify_surfaces_numba")
    s.unchanged("elements unchanged", before, el)
    s.defs("index ranges")
    s.nonvacuous()


def detection(s, d):
    """get_boundary_surfaces: exactly the facets that occur once, each with its node, and their nodes"""
    n, ne = ivar("n"), ivar("ne")
    ctx().assume(n >= d + 1, ne >= 1)
    el = elements("el", ne, d, n)
    mod = s.load(BF)
    real = s.get(BF, "identify_surfaces_numba")
    N = (d + 1) * ne
    seen = []
    sf = lambda f, i: app("sf", (lift(f), lift(i)), True)
    solve.FUN_FACTS["sf"] = lambda f, i: [sf(f, 0) >= 0, sf(f, d - 1) < n] + [sf(f, j) < sf(f, j + 1) for j in range(d - 1)]

    def contract(sorted_elements):
        seen.append(frozen(sorted_elements))
        return A.symbolic("sf", (N, d), "i"), A.symbolic("op", (N,), "i")
    before = frozen(el)
    from pyvc import symnp
    u0 = len(symnp.UNIQUE_INFO)
    try:
        mod.identify_surfaces_numba = contract
        bs, inner, bi = s.get(BF, "get_boundary_surfaces")(el)
    finally:
        mod.identify_surfaces_numba = real
    if len(seen) != 1:
        raise Unsupported("get_boundary_surfaces does not enumerate the facets once")
    e = tm.fresh("e", True)
    fe = ctx().facts.extend(e >= 0, e < ne)
    for j in range(d):
        s.true(f"precondition of the enumeration: ascending rows[{j}]", lift(seen[0]((e, j))) < seen[0]((e, j + 1)), fe)
    after = frozen(el)
    for lab, a in (("enumerated elements", seen[0]), ("elements afterwards", after)):
        for j in range(d + 1):
            x, hit = lift(before((e, j))), tm.B(ZERO)
            for q in range(d + 1):
                hit = hit | (x == a((e, q)))
            s.true(f"{lab} keep node {j}", hit, fe)
    infos = symnp.UNIQUE_INFO[u0:]
    rows = [i for i in infos if i["array"].ndim == 2]
    flat = [i for i in infos if i["array"].ndim == 1]
    if len(rows) != 1 or len(flat) != 1:
        raise Unsupported("facets are not compared by np.unique")
    I, J = rows[0], flat[0]
    h = tm.fresh("h", True)
    for j in range(d):
        s.eq(f"the enumerated facets are compared[{j}]", I["row"](h)[j], sf(h, j), ctx().facts.extend(h >= 0, h < N))
    count = lift(bs.shape[0])
    s.record("as many opposite nodes as facets", "proved" if A.dims_equal(inner.shape[0], bs.shape[0]) and bs.shape[1] == d else "refuted", "dimensions")
    # 1. every reported facet is an enumerated one that no other row repeats
    r = tm.fresh("r", True)
    f = ctx().facts.extend(r >= 0, r < count)
    slot = index_of(lift(inner.get((r,))), "op")
    if slot is None:
        raise Unsupported("the opposite nodes are not taken from the enumeration")
    s.true("reported rows exist", (slot >= 0) & (slot < N), f, "get_boundary_surfaces")
    for j in range(d):
        s.eq(f"a reported facet is the one its node belongs to[{j}]", bs.get((r, j)), sf(slot, j), f, "get_boundary_surfaces")
    g = f.extend(h >= 0, h < N, *[sf(h, j) == sf(slot, j) for j in range(d)], I["rep"](h) == I["rep"](slot))
    s.true("a reported facet occurs once", h == slot, g, "extract_unique_elements")
    # 2. every enumerated facet that no other row repeats is reported
    g = ctx().facts.extend(h >= 0, h < N)
    q = I["rep"](h)
    for other in (I["idx"](q), I["wit"](q)):       # h is the only row with these nodes
        same = tm.B(ONE)
        for j in range(d):
            same = same & (sf(other, j) == sf(h, j))
        g = g.extend(~((other >= 0) & (other < N) & same) | (other == h))
        g = g.extend(~((other >= 0) & (other < N)) | ~(I["rep"](other) == q) | same)     # one class: equal rows
    sel = [x for x in A.SEL_INFO.items()]
    rank = None
    for nm, info in sel:
        if A.dims_equal(info["count"], bs.shape[0]):
            rank = app(info["rank"], (q,), True)
    if rank is None:
        raise Unsupported("the facets are not selected by a mask")
    s.true("a facet that occurs once is reported: row in range", (rank >= 0) & (rank < count), g, "get_boundary_surfaces")
    for j in range(d):
        s.eq(f"a facet that occurs once is reported[{j}]", bs.get((rank, j)), sf(h, j), g, "get_boundary_surfaces")
    s.eq("a facet that occurs once is reported: node", inner.get((rank,)), app("op", (h,), True), g, "get_boundary_surfaces")
    # 3. boundary nodes are the nodes of the reported facets
    p = tm.fresh("p", True)
    g = ctx().facts.extend(p >= 0, p < bi.shape[0])
    w = J["idx"](p)
    rr = tm.idiv(w, lift(d))
    for i in range(d):
        gi = g.extend(w - d * rr == i)
        s.true(f"a boundary node belongs to a reported facet: row[{i}]", (rr >= 0) & (rr < count), gi)
        s.eq(f"a boundary node belongs to a reported facet[{i}]", bi.get((p,)), bs.get((rr, i)), gi, "extract_unique_indices")
    for i in range(d):
        pos = J["rep"](d * r + i)
        s.true(f"a node of a reported facet is a boundary node: row[{i}]", (pos >= 0) & (pos < bi.shape[0]), f)
        s.eq(f"a node of a reported facet is a boundary node[{i}]", bi.get((pos,)), bs.get((r, i)), f, "extract_unique_indices")
    s.nonvacuous()


def index_of(t, fun):
    """t = fun(i, ...): i"""
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            at = tm.atom(mono[0][0])
            if at.kind == "app" and at.args[0] == fun:
                return lift(at.args[3])
    return None


def spec_place(j, n, top, tag="sel"):
    """contract of reorder: members to the top in order (others to the bottom, backwards), or members to the bottom backwards"""
    c, m = count(j, tag), member(tag)(j)
    j = lift(j)
    return tm.ite(m, c, n - 1 - (j - c)) if top else tm.ite(m, n - 1 - c, j - c)


def renumbering(s, d, top):
    n, ne, k = ivar("n"), ivar("ne"), ivar("k")
    ctx().assume(n >= d + 1, ne >= 1, k >= 0)
    nodes, el = A.symbolic("nodes", (n, d)), elements("el", ne, d, n)
    sel = A.symbolic("selected", (k,), "i")
    sel.member = member()
    rule = Scatter(s, n, ne, d, "nodes", "el")
    rule.install()
    before = [frozen(x) for x in (nodes, el)]
    out_nodes, out_el, out_k = s.get(BF, "reorder_numba")(nodes, el, sel, top)
    if rule.P is None:
        raise Unsupported("no loop over the old numbers")
    P = rule.P
    j, e = tm.fresh("j", True), tm.fresh("e", True)
    f = ctx().facts.extend(j >= 0, j < n)
    s.eq("the new place of each node", P(j), spec_place(j, n, top), f, "reorder_numba")
    for c in range(d):
        g = f.extend(B(tm.ind_eq(app("moved", (P(j), lift(c))) - app("nodes", (j, lift(c))))))      # invariant at the end of the loop
        s.eq(f"nodes are moved to their places[{c}]", out_nodes.get((P(j), c)), app("nodes", (j, lift(c))), g, "reorder_numba")
    s.record("shapes", "proved" if A.dims_equal(out_nodes.shape[0], n) and out_nodes.shape[1] == d and A.dims_equal(out_el.shape[0], ne) and out_el.shape[1] == d + 1 else "refuted", "dimensions")
    f = ctx().facts.extend(e >= 0, e < ne)
    for v in range(d + 1):
        s.eq(f"elements name the moved nodes[{v}]", out_el.get((e, v)), spec_place(app("el", (e, lift(v)), True), n, top), f, "reorder_numba")
    s.eq("number of selected nodes", out_k, k)
    for x, b, nm in zip((nodes, el), before, ("nodes", "elements")):
        s.unchanged(f"given {nm} unchanged", b, x)
    s.nonvacuous()


def selecting(s, d, top):
    """reorder selects exactly the boundary nodes that satisfy the predicate and hands them on"""
    n, ne, b = ivar("n"), ivar("ne"), ivar("b")
    ctx().assume(n >= d + 1, ne >= 1, b >= 1, b <= n)
    nodes, el = A.symbolic("nodes", (n, d)), elements("el", ne, d, n)
    mod = s.load(BF)
    for nm in ("get_boundary_surfaces", "reorder_numba", "reorder"):
        s.get(BF, nm)
    bi = lambda q: app("bi", (lift(q),), True)
    solve.FUN_FACTS["bi"] = lambda q: [bi(q) >= 0, bi(q) < n]
    seen, calls, res = [], [], (object(), object(), object())

    def surfaces(elements):
        seen.append(frozen(elements))
        return A.symbolic("bs", (ivar("m"), d), "i"), A.symbolic("inner", (ivar("m"),), "i"), A.symbolic("bi", (b,), "i")

    def numba(*a, **k):
        calls.append(dict(zip(("unordered_nodes", "unordered_elements", "selected_indices", "to_top"), a), **k))
        return res
    pred = lambda x, *r: tm.pred("wanted", tuple(lift(x.get((q,))) for q in range(d)))
    wanted = lambda j: tm.pred("wanted", tuple(app("nodes", (lift(j), lift(q))) for q in range(d)))
    old = mod.get_boundary_surfaces, mod.reorder_numba
    try:
        mod.get_boundary_surfaces, mod.reorder_numba = surfaces, numba
        out = mod.reorder(nodes, el, pred, top)
    finally:
        mod.get_boundary_surfaces, mod.reorder_numba = old
    if len(calls) != 1:
        raise Unsupported("reorder does not renumber once")
    g = calls[0]
    s.true("result handed on", len(out) == 3 and all(x is y for x, y in zip(out, res)))
    s.true("direction handed on", g["to_top"] is top)
    s.unchanged("nodes handed on", frozen(nodes), g["unordered_nodes"])
    e = tm.fresh("e", True)
    for lab, x in (("elements handed on", frozen(g["unordered_elements"])), ("boundary of these elements", seen[-1])):
        f = ctx().facts.extend(e >= 0, e < ne)
        for v in range(d + 1):
            s.eq(f"{lab}[{v}]", x((e, v)), app("el", (e, lift(v)), True), f)
    sl = g["selected_indices"]
    q, p = tm.fresh("q", True), tm.fresh("p", True)
    f = ctx().facts.extend(q >= 0, q < sl.shape[0])
    src = index_of(lift(sl.get((q,))), "bi")
    if src is None:
        raise Unsupported("the selected nodes are not taken from the boundary nodes")
    s.true("selected nodes lie on the boundary", (src >= 0) & (src < b), f, "apply_predicate_to_boundary_nodes")
    s.true("selected nodes satisfy the predicate", wanted(sl.get((q,))), f, "apply_predicate_to_boundary_nodes")
    f = ctx().facts.extend(p >= 0, p < b, wanted(bi(p)))
    rank = [app(i["rank"], (p,), True) for i in A.SEL_INFO.values() if A.dims_equal(i["count"], sl.shape[0])]
    if not rank:
        raise Unsupported("the nodes are not selected by a mask")
    s.true("boundary nodes that satisfy the predicate are selected: row", (rank[-1] >= 0) & (rank[-1] < sl.shape[0]), f, "apply_predicate_to_boundary_nodes")
    s.eq("boundary nodes that satisfy the predicate are selected", sl.get((rank[-1],)), bi(p), f, "apply_predicate_to_boundary_nodes")
    s.nonvacuous()


class Orders:
    """reorder_boundary_nodes with the contract of reorder in place of reorder"""

    def __init__(self, s, d):
        self.s, self.d = s, d
        self.n, self.ne = ivar("n"), ivar("ne")
        ctx().assume(self.n >= d + 1, self.ne >= 1)
        self.steps = []         # (tag, top, predicate)

    def coords(self, t, p):
        return A.make((self.d,), lambda ix: app(f"nodes{t}", (lift(p), lift(ix[0]))))

    def bnd(self, t, p):
        return tm.pred(f"bnd{t}", (lift(p),))

    def reorder(self, *a, **k):
        g = dict(zip(("unordered_nodes", "unordered_elements", "predicate", "to_top"), a), **k)
        t = len(self.steps)
        if not isinstance(g["to_top"], bool):
            raise Unsupported("direction of a renumbering")
        self.same(f"nodes of renumbering {t + 1}", g["unordered_nodes"], f"nodes{t}", self.d)
        self.same(f"elements of renumbering {t + 1}", g["unordered_elements"], f"el{t}", self.d + 1)
        tag = f"s{t + 1}"
        self.steps.append((tag, g["to_top"], g["predicate"]))
        total = count(self.n, tag)
        ctx().assume(total >= 0, total <= self.n)
        return A.symbolic(f"nodes{t + 1}", (self.n, self.d)), A.symbolic(f"el{t + 1}", (self.ne, self.d + 1), "i"), total

    def same(self, label, x, name, w):
        e = tm.fresh("e", True)
        f = ctx().facts.extend(e >= 0, e < x.shape[0])
        for v in range(w):
            self.s.eq(f"{label}[{v}]", x.get((e, v)), app(name, (e, lift(v)), x.kind == "i"), f)

    def chosen(self, t, p):
        """selected in renumbering t: a boundary node that satisfies its predicate"""
        r = self.steps[t][2](self.coords(t, p))
        return B(as01(r)) & self.bnd(t, p)

    def place(self, t, p):
        tag, top, _ = self.steps[t]
        c, m, p, n = count(p, tag), self.chosen(t, p), lift(p), self.n
        return tm.ite(m, c, n - 1 - (p - c)) if top else tm.ite(m, n - 1 - c, p - c)

    def lemma(self, t, *pts):
        """the counting lemma for the selected nodes of renumbering t between the given positions"""
        tag = self.steps[t][0]
        pts = [lift(p) for p in pts]
        out = [count(ZERO, tag) == 0] + [count(p + 1, tag) == count(p, tag) + as01(self.chosen(t, p)) for p in pts]
        ext = pts + [p + 1 for p in pts] + [ZERO, self.n]
        for a in ext:
            for b in ext:
                if a is not b:
                    g = (a >= 0) & (a <= b) & (b <= self.n)
                    out.append(~g | ((count(a, tag) <= count(b, tag)) & (count(b, tag) - count(a, tag) <= b - a)))
        return out


CLASSES = dict(C=(1, 1, 0), CD=(1, 1, 1), D=(1, 0, 1), N=(1, 0, 0), I=(0, None, None))      # boundary, contact, dirichlet
# which classes come before which after each renumbering of the four
STAGES = [[("C CD D N", "I")],
          [("C CD D", "I"), ("I", "N"), ("C CD D", "N")],
          [("C CD", "N I D"), ("N", "I D"), ("I", "D")],
          [("C", "N I D CD"), ("N", "I D CD"), ("I", "D CD")]]


def composition(s, d):
    """the renumberings together sort the nodes: contact, other boundary, interior, Dirichlet; the reported numbers are those of the classes"""
    w = Orders(s, d)
    n = w.n
    mod = s.load(BF)
    old = s.get(BF, "reorder")
    get = lambda x: tuple(lift(x.get((q,))) for q in range(d))
    con = lambda x, *r: tm.pred("is_contact", get(x))
    dir_ = lambda x, *r: tm.pred("is_dirichlet", get(x))
    nodes, el = A.symbolic("nodes0", (n, d)), A.symbolic("el0", (w.ne, d + 1), "i")
    try:
        mod.reorder = w.reorder
        r_nodes, r_el, bc, cc, dc = s.get(BF, "reorder_boundary_nodes")(nodes, el, con, dir_)
    finally:
        mod.reorder = old
    if len(w.steps) != 4 or [t for _, t, _ in w.steps] != [True, False, True, False]:
        raise Unsupported("not the four renumberings of the annotated argument")
    w.same("nodes returned", r_nodes, "nodes4", d)
    w.same("elements returned", r_el, "el4", d + 1)
    base = ctx().facts
    p, q = ivar("p"), ivar("q")

    def of_class(t, x, k):
        b, c, dd = CLASSES[k]
        at = w.coords(t, x)
        out = [w.bnd(t, x) if b else ~w.bnd(t, x)]
        if c is not None:
            out += [con(at) if c else ~con(at), dir_(at) if dd else ~dir_(at)]
        return out
    pairs = lambda t: [(k, m) for a, b in STAGES[t] for k in a.split() for m in b.split()]
    for t in range(4):
        f = base.extend(p >= 0, p < n, q >= 0, q < n, ~(p == q), *w.lemma(t, p, q))
        for k, m in pairs(t):
            g = f.extend(*of_class(t, p, k), *of_class(t, q, m))
            if t and (k, m) in pairs(t - 1):
                g = g.extend(p < q)
            elif t and (m, k) in pairs(t - 1):
                g = g.extend(p > q)
            s.true(f"renumbering {t + 1} puts {k} before {m}", w.place(t, p) < w.place(t, q), g, "reorder_boundary_nodes")
    # numbers: all boundary nodes are selected first, all Dirichlet nodes last
    tags = [x[0] for x in w.steps]
    s.eq("number of boundary nodes: those selected first", bc, count(n, tags[0]), base, "reorder_boundary_nodes")
    s.eq("number of Dirichlet nodes: those selected last", dc, count(n, tags[3]), base, "reorder_boundary_nodes")
    for k in CLASSES:
        g = base.extend(p >= 0, p < n)
        for t, what in ((0, CLASSES[k][0]), (2, CLASSES[k][1]), (3, CLASSES[k][2])):
            got = w.chosen(t, p)
            s.true(f"selected in renumbering {t + 1}: {k}", got if what else ~got, g.extend(*of_class(t, p, k)), "reorder_boundary_nodes")
    # contact nodes: those selected third, without the Dirichlet nodes among them, which stand in the first positions
    c3 = count(n, tags[2])
    g = base.extend(p >= 0, p < n, *w.lemma(2, p))
    s.true("selected contact nodes stand first", w.place(2, p) < c3, g.extend(w.chosen(2, p)), "reorder_boundary_nodes")
    s.true("no other node stands there", w.place(2, p) >= c3, g.extend(~w.chosen(2, p)), "reorder_boundary_nodes")
    s.eq("number of contact nodes: those selected third without the Dirichlet nodes among them",
         cc, c3 - SUM(c3, lambda i: as01(dir_(w.coords(3, i)))), base, "reorder_boundary_nodes")
    s.nonvacuous()


def SUM(hi, fn):
    v = tm.fresh("i", True)
    return tm.mk_sum(v, ZERO, hi, as01(fn(v)))


def norm_slice(x, n):
    """(start, stop) of a slice of range(n), as given"""
    if not isinstance(x, slice) or x.step not in (None, 1):
        raise Unsupported("node numbers are not a range")
    return (ZERO if x.start is None else lift(x.start)), (lift(n) if x.stop is None else lift(x.stop))


def classification(s, d):
    """identify_boundaries_and_reorder_nodes: facets by the centroid, ranges and numbers of nodes, conditions"""
    def run():
        w = Factory(s, d, ("side",))
        return w, w.run()
    paths = explore(run)
    s.no_exception("identify_boundaries_and_reorder_nodes", paths)
    for no, p in enumerate(paths):
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        w, (nodes, el, b) = p.value
        n, m, bc, cc, dc = w.n, w.m, w.bc, w.cc, w.dc
        nc = bc - cc - dc
        base = ctx().facts
        e, a, h = tm.fresh("e", True), tm.fresh("a", True), tm.fresh("h", True)
        g = w.seen.get("reorder")
        if g is None or len(w.seen.get("surfaces", [])) != 1:
            raise Unsupported("the nodes are not renumbered, or the facets not found, once")

        def table(label, x, ref, width, rows):
            f = base.extend(e >= 0, e < rows)
            s.record(f"{label}: shape", "proved" if A.dims_equal(x.shape[0], rows) and x.shape[1] == width else "refuted", "dimensions")
            for v in range(width):
                s.eq(f"{label}[{v}]", x.get((e, v)), ref.get((e, v)), f, "identify_boundaries_and_reorder_nodes")
        table("nodes renumbered", g["nodes"], w.raw[0], d, n)
        table("elements renumbered", g["elements"], w.raw[1], d + 1, w.ne)
        table("facets of the renumbered elements", w.seen["surfaces"][0], w.el, d + 1, w.ne)
        table("nodes returned", nodes, w.nodes, d, n)
        table("elements returned", el, w.el, d + 1, w.ne)
        probe = A.make((d,), lambda ix: app("probe", (lift(ix[0]),)))
        for k in ("contact", "dirichlet"):
            s.eq(f"{k} indicator used for the nodes", as01(g["is_" + k](probe)), as01(w.ind[k](probe)), base)

        def centroid(f):
            r = [ZERO] * d
            for q in range(d):
                for k in range(d):
                    r[k] = r[k] + app("nodes", (app("bs", (lift(f), lift(q)), True), lift(k)))
            return tuple(x * lift(F(1, d)) for x in r)
        con, dr, side = (lambda f, k=k: w.ind[k](centroid(f)) for k in ("contact", "dirichlet", "side"))
        classes = dict(contact=lambda f: con(f) & ~dr(f), dirichlet=dr, neumann=lambda f: ~con(f) & ~dr(f))
        kw = dict(b.kw)
        has = "side" in kw
        for k, bd in kw.items():
            want = classes.get(k, side)
            x = bd.surfaces
            f = base.extend(a >= 0, a < x.shape[0])
            row = index_of(lift(x.get((a, 0))), "bs")
            if row is None:
                raise Unsupported("the facets of a class are not rows of the boundary's facets")
            s.true(f"{k} facets are facets of the boundary", (row >= 0) & (row < m), f, "apply_predicate_to_surfaces")
            for i in range(d):
                s.eq(f"{k} facets are facets of the boundary[{i}]", x.get((a, i)), app("bs", (row, lift(i)), True), f)
            s.true(f"{k} facets belong to the class by their centroid", want(row), f, "identify_boundaries_and_reorder_nodes")
            f = base.extend(h >= 0, h < m, want(h))
            rank = [app(i["rank"], (h,), True) for i in A.SEL_INFO.values() if A.dims_equal(i["count"], x.shape[0])]
            if not rank:
                raise Unsupported("facets are not selected by a mask")
            s.true(f"facets of the class {k} are listed: row", (rank[-1] >= 0) & (rank[-1] < x.shape[0]), f, "apply_predicate_to_surfaces")
            for i in range(d):
                s.eq(f"facets of the class {k} are listed[{i}]", x.get((rank[-1], i)), app("bs", (h, lift(i)), True), f, "apply_predicate_to_surfaces")
        ranges = dict(contact=(ZERO, cc), neumann=(cc, cc + nc), dirichlet=(n - dc, n))
        for k, (lo, hi) in ranges.items():
            st, sp = norm_slice(kw[k].node_indices, n)
            s.eq(f"{k} nodes: start of the range", st, lo, base, "identify_boundaries_and_reorder_nodes")
            s.eq(f"{k} nodes: end of the range", sp, hi, base, "identify_boundaries_and_reorder_nodes")
            s.eq(f"{k} nodes: number", kw[k].node_count, hi - lo, base, "identify_boundaries_and_reorder_nodes")

        def condition(k, rows, at):
            got = w.seen.get(("cond", k), [])
            if len(got) != 1:
                raise Unsupported(f"condition {k} is not evaluated once")
            x = got[0]
            s.record(f"{k} condition: one row per node", "proved" if A.dims_equal(x.shape[0], rows) and x.shape[1] == d else "unknown", "dimensions")
            f = base.extend(e >= 0, e < rows)
            for i in range(d):
                s.eq(f"{k} condition is that of the class's nodes[{i}]", x.get((e, i)), app("nodes", (at(e), lift(i))), f, "identify_boundaries_and_reorder_nodes")
            s.true(f"{k} condition is kept", kw[k].node_condition == ("condition", k), base, "identify_boundaries_and_reorder_nodes")
        condition("dirichlet", dc, lambda i: n - dc + i)
        for k in ("contact", "neumann"):
            s.true(f"no condition on {k} nodes", kw[k].node_condition is None)
        uq = w.seen.get("unique", [])
        if len(uq) != 1:
            raise Unsupported("the nodes of a named boundary are not found by np.unique")
        cnt = tm.app("uniq0.n", (), is_int=True)
        if not has:
            s.eq("a named boundary without nodes is left out", cnt, ZERO, base, "identify_boundaries_and_reorder_nodes")
        else:
            bd = kw["side"]
            s.eq("named boundary: number of nodes", bd.node_count, cnt, base, "index_size")
            flat, x = uq[0], bd.surfaces
            f = base.extend(a >= 0, a < x.shape[0])
            for i in range(d):
                got = flat.get((a, i)) if flat.ndim == 2 else flat.get((d * a + i,))
                s.eq(f"named boundary: the nodes of its facets[{i}]", got, x.get((a, i)), f, "identify_boundaries_and_reorder_nodes")
            f = base.extend(e >= 0, e < cnt)
            s.eq("named boundary: node numbers", bd.node_indices.get((e,)), app("uniq0", (e,), True), f)
            condition("side", cnt, lambda i: app("uniq0", (i,), True))
        s.true("no other boundary is made up", set(kw) <= {"contact", "neumann", "dirichlet", "side"})
        s.record("internal nodes handed over", "proved" if A.dims_equal(b.internal.shape[0], m) else "unknown", "dimensions")
    s.nonvacuous()


def ranges(s, d):
    """numbers and index ranges a mesh reports"""
    n, bc, cc, dc, m = ivar("n"), ivar("bc"), ivar("cc"), ivar("dc"), ivar("m")
    ctx().assume(n >= d + 1, cc >= 0, dc >= 0, bc >= cc + dc, bc <= n, m >= 1)
    nc = bc - cc - dc
    mod = s.load(BM)
    Boundary = s.get("conmech.mesh.boundary", "Boundary")
    s.get(BM, "Boundaries")
    mk = lambda k, lo, hi: Boundary(surfaces=A.symbolic(k + "_f", (ivar(k + "_m"), d), "i"), node_indices=slice(lo, hi), node_count=hi - lo)
    ctx().assume(*[ivar(k + "_m") >= 0 for k in ("contact", "neumann", "dirichlet")])
    ctx().assume(ivar("contact_m") + ivar("neumann_m") + ivar("dirichlet_m") >= 1)
    for k in ("contact", "neumann", "dirichlet"):       # facets list their nodes in ascending order
        solve.FUN_FACTS[k + "_f"] = lambda f, i, k=k: [app(k + "_f", (f, lift(j)), True) < app(k + "_f", (f, lift(j + 1)), True) for j in range(d - 1)]
    real = s.get(BM, "get_boundary_surfaces_normals")
    try:
        mod.get_boundary_surfaces_normals = lambda *a, **k: A.symbolic("normals", (m, d))
        b = mod.Boundaries(A.symbolic("nodes", (n, d)), A.symbolic("inner", (m,), "i"), contact=mk("contact", 0, cc), neumann=mk("neumann", cc, cc + nc), dirichlet=mk("dirichlet", n - dc, n))
    finally:
        mod.get_boundary_surfaces_normals = real
    Mesh = s.get("conmech.mesh.mesh", "Mesh")
    mesh = object.__new__(Mesh)
    mesh.nodes, mesh.elements, mesh.boundaries = A.symbolic("nodes", (n, d)), A.symbolic("el", (ivar("ne"), d + 1), "i"), b
    base = ctx().facts
    for who, o in (("Boundaries", b), ("Mesh", mesh)):
        for k, v in dict(contact_nodes_count=cc, neumann_nodes_count=nc, dirichlet_nodes_count=dc, boundary_nodes_count=bc).items():
            s.eq(f"{who}.{k}", getattr(o, k), v, base, f"{who}.{k}")
        bi = o.boundary_indices
        s.record(f"{who}.boundary_indices: as many as boundary nodes", "proved" if A.dims_equal(bi.shape[0], bc) else "refuted", "dimensions", repr(bi.shape)[:100])
        e = tm.fresh("e", True)
        s.eq(f"{who}.boundary_indices: contact and other nodes first", bi.get((e,)), e, base.extend(e >= 0, e < cc + nc), f"{who}.boundary_indices")
        s.eq(f"{who}.boundary_indices: Dirichlet nodes last", bi.get((cc + nc + e,)), n - dc + e, base.extend(e >= 0, e < dc), f"{who}.boundary_indices")
    for k, v in dict(nodes_count=n, independent_nodes_count=n - dc, free_nodes_count=n - dc - cc, inner_nodes_count=n - bc, dimension=lift(d)).items():
        s.eq(f"Mesh.{k}", getattr(mesh, k), v, base, f"Mesh.{k}")
    for k, (lo, hi) in dict(contact_indices=(ZERO, cc), neumann_indices=(cc, cc + nc), dirichlet_indices=(n - dc, n), independent_indices=(ZERO, n - dc), free_indices=(cc, n - dc)).items():
        st, sp = norm_slice(getattr(mesh, k), n)
        s.eq(f"Mesh.{k}: start", st, lo, base, f"Mesh.{k}")
        s.eq(f"Mesh.{k}: end", sp, hi, base, f"Mesh.{k}")
    x = mesh.initial_boundary_nodes
    e = tm.fresh("e", True)
    for i in range(d):
        s.eq(f"Mesh.initial_boundary_nodes[{i}]: first", x.get((e, i)), app("nodes", (e, lift(i))), base.extend(e >= 0, e < cc + nc))
        s.eq(f"Mesh.initial_boundary_nodes[{i}]: last", x.get((cc + nc + e, i)), app("nodes", (n - dc + e, lift(i))), base.extend(e >= 0, e < dc))
    for k in ("contact", "neumann", "dirichlet"):
        for who, o in (("Boundaries", b), ("Mesh", mesh)):
            y = getattr(o, k + "_boundary")
            for i in range(d):
                s.eq(f"{who}.{k}_boundary[{i}]", y.get((e, i)), app(k + "_f", (e, lift(i)), True), base.extend(e >= 0, e < ivar(k + "_m")))
    s.nonvacuous()


def description(s, d):
    """BoundariesDescription: no contact and no Dirichlet part unless given; indicators and conditions by name"""
    BD = s.get("conmech.mesh.boundaries_description", "BoundariesDescription")
    probe = A.make((d,), lambda ix: app("probe", (lift(ix[0]),)))
    f1, f2, f3, c1, c2 = (lambda x, k=k: tm.pred(k, (lift(x.get((0,))),)) for k in ("f1", "f2", "f3", "c1", "c2"))
    e = BD()
    for k in ("contact", "dirichlet"):
        s.true(f"no {k} part by default", e[k](probe) is False or as01(e[k](probe)).is_const() and as01(e[k](probe)).const() == 0)
    q = ivar("q")
    ctx().assume(q >= 0)
    z = e.conditions["dirichlet"](A.symbolic("x", (q, d)))
    j = tm.fresh("j", True)
    s.record("default condition: one value per node", "proved" if A.dims_equal(z.shape[0], q) else "refuted", "dimensions")
    s.zero("default condition is zero", z.get((j,) + (0,) * (z.ndim - 1)), ctx().facts.extend(j >= 0, j < q))
    g = BD(contact=f1, dirichlet=(f2, c1), side=(f3, c2))
    s.true("indicators by name", g["contact"] is f1 and g["dirichlet"] is f2 and g["side"] is f3 and g.indicators["side"] is f3)
    s.true("conditions by name", g.conditions["dirichlet"] is c1 and g.conditions["side"] is c2)
    g = BD(dirichlet=f2)
    s.true("given indicator with the default condition", g["dirichlet"] is f2)
    s.zero("default condition is kept", g.conditions["dirichlet"](A.symbolic("x", (q, d))).get((j,)), ctx().facts.extend(j >= 0, j < q))
    s.true("no contact part", as01(g["contact"](probe)).is_const() and as01(g["contact"](probe)).const() == 0)
    s.true("one description does not change another", BD()["dirichlet"] is not f2)


def sections(tier):
    return (both_dims(enumeration, "facet enumeration") + both_dims(detection, "boundary facets") + [("counting lemma", counting, 60)]
            + [(f"renumbering[{d}d, {'top' if top else 'bottom'}]", (lambda s, d=d, top=top: renumbering(s, d, top)), 300) for d in (2, 3) for top in (True, False)]
            + [(f"selection[{d}d]", (lambda s, d=d: selecting(s, d, True)), 300) for d in (2, 3)]
            + both_dims(composition, "order of the classes") + both_dims(classification, "classification") + both_dims(ranges, "index ranges") + both_dims(description, "description"))


from pyvc import harness  # noqa: E402
