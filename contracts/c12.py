"""C12: loads of an arbitrary mesh, source and time, after any history of queries."""
from contracts.lib import *

BF = "conmech.scene.body_forces"
FUNCTIONS = ["get_surface_per_boundary_node_numba", "element_volume_part_numba", "nph.euclidean_norm_numba", "nph.stack_column",
             "FieldSource.node_source / clear / __setattr__", "BodyForces.get_integrated_inner_forces / get_integrated_outer_forces / get_integrated_field_sources_column / integrate / clear",
             "inner_forces / outer_forces / internal_temperature / outer_temperature of the problem classes (defaults)"]
ASSUMPTIONS = ["precondition: Neumann facets list distinct existing nodes; the nodal volume matrix is arbitrary (its values are C02's contract)",
               "precondition: sources are functions of the position and the time that return one value per component and do not change their argument; the mesh does not change between queries"]


class World:
    def __init__(self, s, d, comps):
        self.s, self.d, self.comps = s, d, comps
        self.n, self.nf = ivar("n"), ivar("nf")
        ctx().assume(self.n >= 1, self.nf >= 0)
        n = self.n
        self.nodes, self.vol = A.symbolic("nodes", (n, d)), A.symbolic("vol", (n, n))
        self.cb = A.symbolic("nb", (self.nf, d), "i")

        def ff(e, i):
            x = app("nb", (e, i), True)
            return [x >= 0, x < n] + [app("nb", (e, lift(j)), True) != x for j in range(d) if not (i.is_const() and i.const() == j)]
        solve.FUN_FACTS["nb"] = ff
        self.body = Obj(mesh=Obj(nodes=self.nodes, nodes_count=n, neumann_boundary=self.cb, dimension=d), dynamics=Obj(volume_at_nodes=self.vol))

    def source(self, name):
        def f(x, t=None):
            xs = tuple(lift(x[k]) for k in range(self.d))
            return A.from_list([app(f"{name}{k}", xs + (lift(t),)) for k in range(self.comps)])
        return f

    def at(self, name, k, i, t):
        return app(f"{name}{k}", tuple(app("nodes", (lift(i), lift(c))) for c in range(self.d)) + (lift(t),))

    def measure(self, e):
        X = [[app("nodes", (app("nb", (e, lift(v)), True), lift(k))) for k in range(self.d)] for v in range(self.d)]
        if self.d == 2:
            return tm.sqrt((X[0][0] - X[1][0]) ** 2 + (X[0][1] - X[1][1]) ** 2)
        a, b = [X[1][k] - X[0][k] for k in range(3)], [X[2][k] - X[0][k] for k in range(3)]
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        return tm.sqrt(sum((x * x for x in c), ZERO)) / 2

    def share(self, a):
        e = tm.fresh("e", True)
        here = sum((tm.ind_eq(app("nb", (e, lift(v)), True) - a) for v in range(self.d)), ZERO)
        return tm.mk_sum(e, ZERO, self.nf, self.measure(e) / self.d * here)

    def load(self, k, a, t, inner="fi", outer="fo"):
        j = tm.fresh("j", True)
        return tm.mk_sum(j, ZERO, self.n, app("vol", (a, j)) * self.at(inner, k, j, t)) + self.share(a) * self.at(outer, k, a, t)

    def check(self, label, got, t, inner="fi", outer="fo"):
        s, c = self.s, ctx()
        ok = len(got.shape) == 1 and A.dims_equal(got.shape[0], self.comps * self.n)
        s.true(f"{label}: one value per node and component", ok)
        if not ok:
            return
        a = ivar("a")
        old = c.facts
        c.facts = f = old.extend(a >= 0, a < self.n)
        try:
            for k in range(self.comps):
                s.zero(f"{label}: component {k}", lift(got.get((k * self.n + a,))) - self.load(k, a, t, inner, outer), f, "BodyForces.integrate")
        finally:
            c.facts = old

    def unchanged(self):
        for nm, x in (("nodes", self.nodes), ("vol", self.vol), ("nb", self.cb)):
            self.s.array_eq(f"frame: {nm} unchanged", x, lambda ix, nm=nm: app(nm, tuple(lift(i) for i in ix), nm == "nb"))


def over(s, label, run, check):
    paths = explore(run)
    s.no_exception(label, paths)
    for p in paths:
        if p.exc is None:
            C.CTX[0] = p.ctx
            check(*p.value)
            s.defs("indices in range, no division by zero")
    s.nonvacuous()


def forces(s, w):
    f = s.get(BF, "BodyForces")(w.body)
    f.inner.source, f.outer.source = w.source("fi"), w.source("fo")
    return f


def single(s, d, comps):
    """one query of a fresh object"""
    t = var("t")

    def run():
        w = World(s, d, comps)
        f = forces(s, w)
        return w, f.integrate(t)

    def check(w, r):
        w.check("load", r, t)
        w.unchanged()
    over(s, "integrate", run, check)


def total(s, d):
    """constant sources: the whole force is nodal volumes times density plus Neumann area times traction"""
    def run():
        w = World(s, d, d)
        cls = s.get(BF, "BodyForces")
        f = cls(w.body)
        f.inner.source = lambda x, t=None: A.from_list([var(f"F{k}") for k in range(d)])
        f.outer.source = lambda x, t=None: A.from_list([var(f"T{k}") for k in range(d)])
        return w, f.integrate(var("t"))

    def check(w, r):
        i, j, e = (tm.fresh(q, True) for q in "ije")
        vol = tm.mk_sum(i, ZERO, w.n, tm.mk_sum(j, ZERO, w.n, app("vol", (i, j))))
        area = tm.mk_sum(e, ZERO, w.nf, w.measure(e))
        for k in range(d):
            tot = tm.mk_sum(i, ZERO, w.n, lift(r.get((k * w.n + i,))))
            s.zero(f"total force, component {k}", tot - var(f"F{k}") * vol - var(f"T{k}") * area)
    over(s, "integrate", run, check)


def histories(s, d):
    """queries at arbitrary times, results modified by the caller, sources replaced, caches cleared"""
    t1, t2, t3 = var("t1"), var("t2"), var("t3")

    def run():
        w = World(s, d, d)
        f = forces(s, w)
        r1 = f.integrate(t1)
        for k in range(d):
            r1[k * w.n:(k + 1) * w.n] = A.symbolic("junk", (w.n,))
        r2 = f.integrate(t2)
        q2 = r2.copy()
        f.clear()
        r2 += 1
        r3 = f.integrate(t1)
        q3 = r3.copy()
        r3 *= 2
        f.inner.source = w.source("gi")
        r4 = f.integrate(t1)
        f.outer.source = w.source("go")
        r5 = f.integrate(t3)
        r6 = f.integrate(t1)
        return w, q2, q3, r4, r5, r6

    def check(w, r2, r3, r4, r5, r6):
        w.check("second query", r2, t2)
        w.check("first time again after clear", r3, t1)
        w.check("after a change of the volume source", r4, t1, "gi")
        w.check("after a change of the surface source", r5, t3, "gi", "go")
        w.check("back to the first time", r6, t1, "gi", "go")
        w.unchanged()
    over(s, "history", run, check)


def invariant(s, which):
    """any history: what is remembered belongs to the present source (inductive over all operations)"""
    cls = s.get(BF, "FieldSource")
    fresh = cls()
    for nm in ("cache", "timestamp", "source"):
        if not hasattr(fresh, nm):
            raise SpecGone(f"FieldSource.{nm} does not exist")
    t, old = var("t"), var("told")
    d = 2

    def remembered(w, f, time, src):
        f.cache = A.make((w.n, d), lambda ix: A.merge(tm.ind_eq(lift(ix[1])), w.at(src, 0, ix[0], time), w.at(src, 1, ix[0], time)) if not isinstance(ix[1], int) else w.at(src, ix[1], ix[0], time))
        f.timestamp = time

    def run():
        w = World(s, d, d)
        f = cls()
        if which == "fresh":
            f.source = w.source("fi")
            return w, f, f.node_source(w.nodes, t), "fi"
        f.source = w.source("fi")
        remembered(w, f, old, "fi")
        src = "fi"
        if which == "clear":
            f.clear()
        if which == "new source":
            f.source = w.source("gi")
            src = "gi"
        return w, f, f.node_source(w.nodes, t), src

    def check(w, f, r, src):
        a = ivar("a")
        ctx().facts = fs = ctx().facts.extend(a >= 0, a < w.n)
        for k in range(d):
            s.eq(f"values of the present source at the requested time [{k}]", r.get((a, k)), w.at(src, k, a, t), fs, "FieldSource.node_source")
            s.eq(f"what is remembered is remembered for its time [{k}]", f.cache.get((a, k)), w.at(src, k, a, f.timestamp), fs, "FieldSource.node_source")
    over(s, which, run, check)


def unspecified(s, d):
    """a problem that leaves its loads out is unloaded: both defaults, through the whole integration, one value per component"""
    P = s.load("conmech.scenarios.problems")
    classes = sorted({v for v in vars(P).values() if isinstance(v, type) and issubclass(v, P.Problem)}, key=lambda c: c.__name__)
    for cls in classes:
        poisson, wave = issubclass(cls, P.PoissonProblem), issubclass(cls, P.WaveProblem)
        comps = 1 if poisson or wave else d
        names = ("internal_temperature", "outer_temperature") if poisson else ("inner_forces", "outer_forces")

        def run():
            w = World(s, d, comps)
            f = s.get(BF, "BodyForces")(w.body)
            f.inner.source, f.outer.source = (getattr(cls, q) for q in names)
            return w, f.integrate(var("t"))

        def check(w, r):
            ok = len(r.shape) == 1 and A.dims_equal(r.shape[0], comps * w.n)
            s.true(f"{cls.__name__}: one value per node and component", ok)
            a = ivar("a")
            fs = ctx().facts.extend(a >= 0, a < w.n)
            for k in range(comps if ok else 0):
                s.zero(f"{cls.__name__}: component {k}", lift(r.get((k * w.n + a,))), fs, "defaults of the problem")
        over(s, cls.__name__, run, check)


def sections(tier):
    out = []
    for d, c in ((2, 2), (3, 3), (2, 1), (3, 1)):
        out.append((f"load vector [{d}d, {c} components]", (lambda s, d=d, c=c: single(s, d, c)), 200))
    for d in (2, 3):
        out.append((f"total force [{d}d]", (lambda s, d=d: total(s, d)), 200))
        out.append((f"query history [{d}d]", (lambda s, d=d: histories(s, d)), 200))
        out.append((f"loads that are left out [{d}d]", (lambda s, d=d: unspecified(s, d)), 60))
    for w in ("fresh", "query", "clear", "new source"):
        out.append((f"memory invariant: {w}", (lambda s, w=w: invariant(s, w)), 60))
    return out
