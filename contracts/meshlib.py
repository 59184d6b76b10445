"""Contracts of the mesh factory's helpers, shared by C10, C11 and C17."""
from contracts.lib import *

BF = "conmech.mesh.boundaries_factory"
BM = "conmech.mesh.boundaries"


def coords(name, j, d):
    return tuple(app(name, (lift(j), lift(k))) for k in range(d))


class Factory:
    """identify_boundaries_and_reorder_nodes with the contracts of its callees in their place"""

    def __init__(self, s, d, extra=()):
        self.s, self.d = s, d
        n, ne, m = ivar("n"), ivar("ne"), ivar("m")
        self.n, self.ne, self.m = n, ne, m
        c = ctx()
        self.bc, self.cc, self.dc = ivar("bc"), ivar("cc"), ivar("dc")
        c.assume(n >= d + 1, ne >= 1, m >= 1, self.cc >= 0, self.dc >= 0, self.bc >= self.cc + self.dc, self.bc <= n)
        self.mod = s.load(BF)
        self.raw = A.symbolic("raw_nodes", (n, d)), A.symbolic("raw_el", (ne, d + 1), "i")
        self.nodes, self.el = A.symbolic("nodes", (n, d)), A.symbolic("el", (ne, d + 1), "i")
        self.bs, self.inner = A.symbolic("bs", (m, d), "i"), A.symbolic("inner", (m,), "i")
        self.bi = A.symbolic("bi", (self.bc,), "i")

        def ff(f, i):
            x = [app("bs", (f, lift(j)), True) for j in range(d)]
            return [x[0] >= 0, x[-1] < n] + [x[j] < x[j + 1] for j in range(d - 1)]
        solve.FUN_FACTS["bs"] = ff
        solve.FUN_FACTS["inner"] = lambda f: [app("inner", (f,), True) >= 0, app("inner", (f,), True) < n]
        self.pred_calls = []
        self.ind = {k: self.predicate(k) for k in ("contact", "dirichlet") + tuple(extra)}
        self.cond = {k: self.condition(k) for k in ("dirichlet",) + tuple(extra)}
        self.extra = extra
        self.seen = {}

    def predicate(self, k):
        def p(x, *rest):
            a = x if isinstance(x, (tuple, list)) else [x.get((q,)) for q in range(self.d)]
            return tm.pred("is_" + k, tuple(lift(v) for v in a))
        return p

    def condition(self, k):
        def f(x):
            self.seen.setdefault(("cond", k), []).append(x)
            return ("condition", k)
        return f

    def run(self):
        """returns (nodes, elements, boundaries) of the code"""
        w, mod = self, self.mod
        for nm in ("reorder_boundary_nodes", "get_boundary_surfaces", "Boundaries", "Boundary", "apply_predicate_to_surfaces"):
            if not hasattr(mod, nm):
                raise SpecGone(f"boundaries_factory.{nm} does not exist")

        def reorder(*a, **k):
            got = dict(zip(("nodes", "elements", "is_contact", "is_dirichlet"), a), **k)
            w.seen["reorder"] = got
            return w.nodes, w.el, w.bc, w.cc, w.dc

        def surfaces(elements):
            w.seen.setdefault("surfaces", []).append(elements)
            return w.bs, w.inner, w.bi

        class Rec:
            def __init__(self, nodes, boundary_internal_indices, **kw):
                self.nodes, self.internal, self.kw = nodes, boundary_internal_indices, kw
        old = mod.reorder_boundary_nodes, mod.get_boundary_surfaces, mod.Boundaries, np_unique()
        descr = Descr(self.ind, self.cond)

        def uniq(a, axis, *flags):
            if axis not in (None,) or any(flags):
                raise Unsupported("np.unique with options")
            k = len(w.seen.setdefault("unique", []))
            cnt = tm.app(f"uniq{k}.n", (), is_int=True)
            w.seen["unique"].append(a)
            ctx().assume(cnt >= 0)
            return A.symbolic(f"uniq{k}", (cnt,), "i")
        mod.reorder_boundary_nodes, mod.get_boundary_surfaces, mod.Boundaries = reorder, surfaces, Rec
        set_unique(uniq)
        try:
            return mod.BoundariesFactory.identify_boundaries_and_reorder_nodes(self.raw[0], self.raw[1], descr)
        finally:
            mod.reorder_boundary_nodes, mod.get_boundary_surfaces, mod.Boundaries = old[:3]
            set_unique(old[3])


class Descr:
    """a description of boundaries: indicators and conditions by name"""
    def __init__(self, ind, cond):
        self.indicators, self.conditions = dict(ind), dict(cond)

    def __getitem__(self, k):
        return self.indicators[k]


def np_unique():
    from pyvc import symnp
    return symnp.UNIQUE_HOOK[0]


def set_unique(h):
    from pyvc import symnp
    symnp.UNIQUE_HOOK[0] = h


# ------------------------------------------------------------------ counting the members of a set of positions
def member(tag="sel"):
    return lambda j: tm.pred(tag, (lift(j),))


def count(j, tag="sel"):
    """ghost: number of members below j"""
    return app("cnt_" + tag, (lift(j),), True)


def count_step(j, tag="sel"):
    return [count(lift(j) + 1, tag) == count(j, tag) + as01(member(tag)(j))]


def count_pair(a, b, tag="sel"):
    """lemma (proved in `counting`): for a <= b the members between a and b are at least 0 and at most b - a"""
    a, b = lift(a), lift(b)
    g = (a >= 0) & (a <= b)
    return [~g | ((count(a, tag) <= count(b, tag)) & (count(b, tag) - count(a, tag) <= b - a)), count(ZERO, tag) == 0]


def counting(s, *_):
    """the lemma by induction on b"""
    a, b = ivar("a"), ivar("b")
    base = ctx().facts.extend(a >= 0)
    s.true("no members in an empty range", (count(a) <= count(a)) & (count(a) - count(a) <= 0), base)
    hyp = base.extend(b >= a, count(a) <= count(b), count(b) - count(a) <= b - a, *count_step(b))
    s.true("one position more", (count(a) <= count(b + 1)) & (count(b + 1) - count(a) <= b + 1 - a), hyp)
    s.nonvacuous()


class Scatter:
    """rule for a loop over all old numbers that moves node after node to its new place and rewrites the elements:
    counters advance by fixed amounts for members and for others, an element entry is rewritten when its old number comes up,
    and a place is written once. The new place P(j) of old number j is read off the code."""

    def __init__(self, s, n, ne, d, old_nodes, old_el):
        self.s, self.n, self.ne, self.d = s, n, ne, d
        self.un = lambda j, c: app(old_nodes, (lift(j), lift(c)))
        self.el = lambda e, v: app(old_el, (lift(e), lift(v)), True)
        self.P = None
        self.site = None

    def install(self):
        ctx().inv_rule = self.rule

    def rule(self, vc, it, body, names, site):
        c = ctx()
        if not A.dims_equal(it.n, self.n) or c.loop_depth or c.guards:
            return False
        if self.P is not None:
            raise Unsupported("two loops over the nodes")
        n, d, s = self.n, self.d, self.s
        cells = R.cells_of((body,), names)
        k = tm.fresh("k", True)
        base = c.facts
        pre = [R._cell(x) for x in cells]
        saved_def = c.defchecks

        def run(havoc):
            eff = R.Effects(cells)
            c.facts = base.extend(k >= 0, k < n)
            c.defchecks = False
            c.loop_depth += 1
            try:
                havoc()
                body(it.item(k))
                vals = [R._cell(x) for x in cells]
                vals = [v.frozen() if isinstance(v, A.Arr) else v for v in vals]
                roots = {id(r): (r, r.snapshot()) for r, _ in eff.written_roots()}
                return vals, roots
            finally:
                eff.finish()
                c.loop_depth -= 1
                c.defchecks = saved_def
                eff.rollback()
                c.facts = base
        vals, roots = run(lambda: None)
        ints = [q for q, v in enumerate(pre) if isinstance(v, (int, T)) and not isinstance(v, bool)]
        arrs = [q for q, v in enumerate(pre) if isinstance(v, A.Arr)]
        if any(v is not R.UNBOUND and q not in ints and q not in arrs for q, v in enumerate(pre)):
            raise Unsupported("the renumbering loop carries other values")
        if len(arrs) != 1 or len(roots) != 1:
            raise Unsupported("the renumbering loop does not rewrite one array of elements and fill one array of nodes")
        ea, (root, _) = arrs[0], list(roots.values())[0]
        E0 = pre[ea].frozen()
        if not (A.dims_equal(pre[ea].shape[0], self.ne) and pre[ea].shape[1] == d + 1 and A.dims_equal(root.shp[0], n) and root.shp[1] == d):
            raise Unsupported("unexpected shapes in the renumbering loop")
        u = len(R._loop_uid) + hash(site) % 1000
        X = {q: tm.fresh("x", True) for q in ints}

        def arrays():
            R._setcell(cells[ea], A.symbolic("HE", pre[ea].shape, "i"))
            root.restore(((lambda idx: app("HN", tuple(lift(i) for i in idx))), ()))
            root.version += 1

        def havoc1():
            for q in ints:
                R._setcell(cells[q], X[q])
            arrays()
        vals, _ = run(havoc1)
        closed = {}
        sel = member()(k)
        for q in ints:
            delta = lift(vals[q]) - X[q]
            two = []
            for cond in (sel, ~sel):
                t = solve.simp(delta, base.extend(k >= 0, k < n, cond))
                if not t.is_const() or t.const().denominator != 1:
                    raise Unsupported("a counter of the renumbering loop does not advance by fixed amounts")
                two.append(t)
            closed[q] = lambda j, q=q, two=two: lift(pre[q]) + two[0] * count(j) + two[1] * (lift(j) - count(j))

        def havoc2():
            for q in ints:
                R._setcell(cells[q], closed[q](k))
            arrays()
        vals, roots = run(havoc2)
        A1 = vals[ea]
        N1 = lambda idx: root.read(idx, list(roots.values())[0][1])
        e, v = tm.fresh("e", True), tm.fresh("v", True)
        here = base.extend(k >= 0, k < n, e >= 0, e < self.ne, v >= 0, v <= d)
        # the new number of the old number k
        E0k = lift(E0((e, v)))
        hit = [B(tm.ind_eq(app("HE", (e, v), True) - E0k)), B(tm.ind_eq(self.el(e, v) - k))]
        places = []
        for cond in (sel, ~sel):
            old, c.facts = c.facts, here.extend(cond, *hit)
            try:
                t = solve.simp(lift(A1((e, v))), c.facts)
                t = tm.subst_fun(t, "HE", lambda *ix: E0k)
                t = solve.simp(tm.subst_fun(t, "el", lambda *ix: k), c.facts)
            finally:
                c.facts = old
            if t.fv() & {tm.vid(e), tm.vid(v)} or "HE" in tm.funs_of(t):
                raise Unsupported("the new number of a node is not determined by its old number")
            places.append(t)
        kid = tm.vid(k)
        self.P = lambda j: tm.ite(member()(j), tm.subst(places[0], {kid: lift(j)}), tm.subst(places[1], {kid: lift(j)}))
        P = self.P
        lem = lambda j: count_step(j) + count_pair(ZERO, j) + count_pair(j, n) + count_pair(lift(j) + 1, n)
        # a new number is valid, and no two old numbers share one
        j = tm.fresh("j", True)
        both = base.extend(j >= 0, j < k, k < n, *lem(j), *lem(k), *count_pair(j, k), *count_pair(j + 1, k))
        one = base.extend(k >= 0, k < n, *lem(k))
        s.true("new numbers are valid", (P(k) >= 0) & (P(k) < n), one, "reorder_numba")
        s.true("different nodes get different numbers", ~(P(j) == P(k)), both, "reorder_numba")
        ok = [r["status"] == "proved" for r in s.results[-2:]]
        # elements: rewritten below k, encoded from k on
        closedE = lambda q: tm.ite(self.el(e, v) < q, P(self.el(e, v)), E0k)
        o = self.el(e, v)
        inr = [(o >= 0), (o < n), (P(o) >= 0) & (P(o) < n)]
        s.eq("elements at the start of the loop", closedE(ZERO), E0k, here.extend(*inr), "reorder_numba")
        for lab, cs in (("earlier", [o < k]), ("now", [B(tm.ind_eq(o - k))]), ("later", [o > k])):
            for sl, sc in (("member", sel), ("other", ~sel)):
                fs = here.extend(*inr, *cs, sc, B(tm.ind_eq(app("HE", (e, v), True) - closedE(k))), (P(k) >= 0) & (P(k) < n))
                s.eq(f"invariant of the elements: {lab}, {sl}", A1((e, v)), closedE(k + 1), fs, "reorder_numba")
        # nodes: the places of the numbers below k hold their nodes
        for comp in range(d):
            for sl, sc in (("member", sel), ("other", ~sel)):
                fs = base.extend(k >= 0, k < n, sc, (P(k) >= 0) & (P(k) < n))
                s.eq(f"the node is moved to its place[{comp}], {sl}", N1((P(k), comp)), self.un(k, comp), fs, "reorder_numba")
                fs = base.extend(j >= 0, j < k, k < n, sc, ~(P(j) == P(k)), B(tm.ind_eq(app("HN", (P(j), lift(comp))) - self.un(j, comp))))
                s.eq(f"earlier nodes stay in their places[{comp}], {sl}", N1((P(j), comp)), self.un(j, comp), fs, "reorder_numba")
        # after the loop
        for q in ints:
            R._setcell(cells[q], closed[q](n))
        for q, v0 in enumerate(pre):
            if v0 is R.UNBOUND:
                R._setcell(cells[q], R.Poison("bound in the renumbering loop"))
        R._setcell(cells[ea], A.make(pre[ea].shape, lambda ix: P(self.el(ix[0], ix[1])), "i"))
        root.restore(((lambda idx: app("moved", tuple(lift(i) for i in idx))), ()))
        root.version += 1
        return True
