"""C09: energy, subgradient and residual of an arbitrary contact problem, and what the solvers hand to the minimiser."""
from contracts.lib import *

SM = "conmech.solvers.solver_methods"
FUNCTIONS = ["solver_methods.make_cost_functional (generated energy)", "make_subgradient (generated subgradient)", "make_equation (both generated residuals)",
             "get_nodes", "interpolate_node_between", "njit", "nph.length", "Optimization.__init__ (choice of the energy)", "Optimization._solve_impl (arguments of the minimiser)",
             "Direct.__init__", "Direct._solve_impl"]
ASSUMPTIONS = ["precondition: normals, matrices, loads, vectors and laws (uninterpreted functions of normal/tangential value, old displacement, time step) are arbitrary; "
               "contact facets list distinct existing nodes; the reduced system holds the first nodes of the numbering",
               "library contract: numba.njit does not change the meaning of a function; scipy.optimize.minimize / fsolve return an arbitrary vector after evaluating the given function with the given arguments"]


def facet_nodes(d, e):
    return [app("cb", (e, lift(k)), True) for k in range(d)]


def measure(d, e, known=False):
    ids = facet_nodes(d, e)
    X = [[app("nodes", (i, lift(k))) for k in range(d)] for i in ids]
    if d == 2 or known:
        return tm.sqrt((X[0][0] - X[1][0]) ** 2 + (X[0][1] - X[1][1]) ** 2)
    a, b = [X[1][k] - X[0][k] for k in range(3)], [X[2][k] - X[0][k] for k in range(3)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return tm.sqrt(sum((x * x for x in c), ZERO)) / 2


class System:
    """arbitrary data; n nodes, the first m of them in the reduced system"""
    def __init__(self, d, vd, pd, full=False):
        c = ctx()
        self.d, self.vd, self.pd = d, vd, pd
        self.n, self.nf = ivar("n"), ivar("nf")
        self.m = self.n if full else ivar("m")
        c.assume(self.m >= 1, self.m <= self.n, self.nf >= 0)
        N = self.N = vd * self.m
        self.var, self.old = A.symbolic("x", (N,)), A.symbolic("old", (vd * self.n,))
        self.nodes, self.normals = A.symbolic("nodes", (self.n, d)), A.symbolic("nr", (self.nf, d))
        self.cb = A.symbolic("cb", (self.nf, d), "i")
        self.lhs, self.rhs = A.symbolic("A", (N, N)), A.symbolic("r", (N,))
        self.u, self.base, self.dt = A.symbolic("u", (pd * self.n,)), A.symbolic("base", (self.n, self.n)), var("dt")
        n = self.n

        def ff(e, i):
            x = app("cb", (e, i), True)
            return [x >= 0, x < n] + [app("cb", (e, lift(j)), True) != x for j in range(d) if not (i.is_const() and i.const() == j)]
        solve.FUN_FACTS["cb"] = ff

    def args(self):
        return self.var, self.old, self.nodes, self.cb, self.normals, self.lhs, self.rhs, self.u, self.base, self.dt

    def unchanged(self, s):
        for nm, a in (("x", self.var), ("old", self.old), ("nodes", self.nodes), ("cb", self.cb), ("nr", self.normals), ("A", self.lhs), ("r", self.rhs), ("u", self.u), ("base", self.base)):
            s.array_eq(f"frame: argument {nm} unchanged", a, lambda ix, nm=nm: app(nm, tuple(lift(i) for i in ix), nm == "cb"))

    # ghost values
    def samples(self, e, own_old=False):
        """midpoint and nodes of facet e; nodes outside the reduced system take the old values"""
        old, tot = ("x", self.m) if own_old else ("old", self.n)
        vals = []
        for i in facet_nodes(self.d, e):
            vals.append([tm.ite(i < self.m, app("x", (c * self.m + i,)), app(old, (c * tot + i,))) for c in range(self.vd)])
        mid = [sum((v[c] for v in vals), ZERO) / len(vals) for c in range(self.vd)]
        return [mid] + vals

    def old_displacement(self, e):
        mean = [sum((app("u", (c * self.n + i,)) for i in facet_nodes(self.d, e)), ZERO) / self.d for c in range(self.pd)]
        nr = [app("nr", (e, lift(k))) for k in range(self.d)]
        if self.pd != self.d:       # broadcast of a one-component displacement
            mean = [mean[0]] * self.d
        dn = sum((a * b for a, b in zip(mean, nr)), ZERO)
        return dn, [a - dn * b for a, b in zip(mean, nr)]

    def facet_values(self, e, law):
        """value per sample of bound*normal part + bound*tangential part"""
        nr = [app("nr", (e, lift(k))) for k in range(self.d)]
        dn, dtau = self.old_displacement(e)
        out = []
        for v in self.samples(e):
            if self.vd == 1:
                vn, vt = v[0], []
            else:
                vn = sum((a * b for a, b in zip(v, nr)), ZERO)
                vt = [a - vn * b for a, b in zip(v, nr)]
            out.append(law.nb(vn, dn, self.dt) * law.jn(vn, dn, self.dt) + law.tb(vn, dn, self.dt) * law.jt(vt, dtau, self.dt))
        return out

    def quadratic(self, N=None):
        N = N or self.N
        i, j = tm.fresh("i", True), tm.fresh("j", True)
        return tm.mk_sum(i, ZERO, N, tm.mk_sum(j, ZERO, N, app("A", (i, j)) * app("x", (i,)) * app("x", (j,)))) / 2 - tm.mk_sum(i, ZERO, N, app("r", (i,)) * app("x", (i,)))

    def energy(self, law, known=False):
        e = tm.fresh("e", True)
        vals = self.facet_values(e, law)
        return self.quadratic() + tm.mk_sum(e, ZERO, self.nf, measure(self.d, e, known) / len(vals) * sum(vals, ZERO))

    def residual(self, c, a):
        j = tm.fresh("j", True)
        i = c * self.m + a
        return tm.mk_sum(j, ZERO, self.N, app("A", (i, j)) * app("x", (j,))) - app("r", (i,))

    def force(self, c, a, values, known=False):
        """contact force on component c of node a"""
        e = tm.fresh("e", True)
        vals = values(e)
        here = sum((tm.ind_eq(i - a) for i in facet_nodes(self.d, e)), ZERO)
        return tm.mk_sum(e, ZERO, self.nf, measure(self.d, e, known) / len(vals) * sum(vals, ZERO) * app("nr", (e, lift(c))) / self.d * here)


class Law:
    """uninterpreted law; omitted parts default to 0 (response) and 1 (bounds)"""
    def __init__(self, d, vd, normal=True, nb=True, jt=True, tb=True):
        flat = lambda x: tuple(lift(x.get((k,))) if isinstance(x, A.Arr) else lift(x[k]) for k in range(len(x) if isinstance(x, list) else (d if vd > 1 or True else 0)))
        self.jn = (lambda v, o, t: app("jn", (lift(v), lift(o), lift(t)))) if normal else (lambda *a: ZERO)
        self.nb = {True: lambda v, o, t: app("nb", (lift(v), lift(o), lift(t))), False: lambda *a: ONE, 2: lambda *a: lift(2)}[nb]
        self.tb = {True: lambda v, o, t: app("tb", (lift(v), lift(o), lift(t))), False: lambda *a: ONE, 2: lambda *a: lift(2)}[tb]

        def tang(v, o, t):
            vs = () if len(v) == 0 else tuple(lift(v[k]) for k in range(len(v)))
            os = tuple(lift(o[k]) for k in range(len(o)))
            return app("jt", vs + os + (lift(t),))
        self.jt = tang if jt else (lambda *a: ZERO)
        self.opts = (normal, nb, jt, tb)

    def code(self):
        """what the caller hands in"""
        n, nb, jt, tb = self.opts
        f = lambda flag, g: g if flag is True else (None if flag is False else flag)
        return dict(normal_condition=self.jn if n else None, normal_condition_bound=f(nb, self.nb), tangential_condition=self.jt if jt else None, tangential_condition_bound=f(tb, self.tb))


def two_measures(s, name, got, want, d, facts, fn=""):
    """3-D: results that agree only with the listed 3-D measure are the listed finding"""
    if d == 3 and solve.prove_zero(lift(got) - want(True), facts).status == "proved":
        s.record("facet measure (distance of two nodes)", "refuted", "normal form", f"{name}: the facet's area is replaced by the distance of its first two nodes in the first two coordinates", 0.0, "nph.length")
        return
    s.zero(name, lift(got) - want(False), facts, fn)


def frees(s, label, run, check):
    paths = explore(run)
    s.no_exception(label, paths)
    for p in paths:
        if p.exc is None:
            C.CTX[0] = p.ctx
            check(p.ctx.facts, *p.value)
            s.defs("indices in range, no division by zero")
    s.nonvacuous()


def energy(s, d, vd, pd, **kw):
    make = s.get(SM, "make_cost_functional")

    def run():
        y, law = System(d, vd, pd), Law(d, vd, **kw)
        f = make(**law.code(), variable_dimension=vd, problem_dimension=pd)
        return y, law, f(*y.args())

    def check(f, y, law, got):
        s.true("one number", len(got.shape) == 0 or all(A.dims_equal(x, 1) for x in got.shape))
        g = got.get((0,) * len(got.shape)) if isinstance(got, A.Arr) else got
        two_measures(s, "energy", g, lambda k: y.energy(law, k), d, f, "make_cost_functional")
        y.unchanged(s)
    frees(s, "evaluation", run, check)


def subgradient(s, d, vd, pd, only=False, **kw):
    make = s.get(SM, "make_subgradient")

    def run():
        y, law = System(d, vd, pd), Law(d, vd, **kw)
        f = make(**law.code(), variable_dimension=vd, problem_dimension=pd, only_boundary=only)
        return y, law, f(*y.args())

    def check(f, y, law, got):
        s.true("one value per unknown", len(got.shape) == 1 and A.dims_equal(got.shape[0], y.N))
        a = ivar("a")
        f = f.extend(a >= 0, a < y.m)
        C.CTX[0].facts = f
        for c in range(vd):
            two_measures(s, f"component {c}", got.get((c * y.m + a,)), lambda k: (ZERO if only else y.residual(c, a)) + y.force(c, a, lambda e: y.facet_values(e, law), k), d, f, "make_subgradient")
        y.unchanged(s)
    frees(s, "evaluation", run, check)


def equation(s, d=2):
    make = s.get(SM, "make_equation")

    def run():
        y, law = System(d, d, d, full=True), Law(d, d, nb=False, jt=False, tb=False)
        f = make(jn=law.jn)
        return y, law, f(*y.args())

    def values(y, law):
        def v(e):
            nr = [app("nr", (e, lift(k))) for k in range(d)]
            return [law.jn(sum((a * b for a, b in zip(x, nr)), ZERO), ZERO, ZERO) for x in y.samples(e, own_old=True)]
        return v

    def check(f, y, law, got):
        s.true("one value per unknown", len(got.shape) == 1 and A.dims_equal(got.shape[0], y.N))
        a = ivar("a")
        f = f.extend(a >= 0, a < y.m)
        C.CTX[0].facts = f
        for c in range(d):
            s.zero(f"component {c}", lift(got.get((c * y.m + a,))) - y.residual(c, a) - y.force(c, a, values(y, law)), f, "make_equation")
        y.unchanged(s)
    frees(s, "evaluation", run, check)


def interior(s):
    """interior contact of wave problems: one value per node, response integrated with the volume matrix"""
    make = s.get(SM, "make_equation")

    def run():
        y = System(2, 1, 1)
        base = A.symbolic("base", (y.m, y.m))
        y.base = base
        f = make(jn=None, contact=lambda v, o, t: app("jn", (lift(v), lift(o), lift(t))))
        return y, f(*y.args())

    def check(f, y, got):
        g = got.get((0,) * len(got.shape))
        i, j = tm.fresh("i", True), tm.fresh("j", True)
        want = y.quadratic() + tm.mk_sum(i, ZERO, y.m, tm.mk_sum(j, ZERO, y.m, app("base", (i, j)) * app("jn", (app("x", (j,)), app("u", (j,)), y.dt)))) / 2
        s.zero("interior contact functional", lift(g) - want, f, "make_equation")
        y.unchanged(s)
    frees(s, "evaluation", run, check)


class StubStatement:
    """system of an arbitrary size with dims components"""
    def __init__(self, y, dims, mod):
        self.dimension_in = self.dimension_out = dims
        self.y, self.mod = y, mod
        self.body = None

    def update(self, v):
        M, y = self.mod, self.y
        self.left_hand_side = {1: M.SM1, 2: M.SM2, 3: M.SM3}[self.dimension_in](y.lhs)
        self.right_hand_side = y.rhs

    def find_dirichlet_conditions(self):
        return []


def wiring(s, name, dims, base=None, lawkind="full", bare=False):
    """the function, start and arguments handed to the library: evaluating them is the energy / residual of the present data"""
    direct = name == "Direct"
    cls = s.get("conmech.solvers.direct" if direct else "conmech.solvers.optimization.global_optimization", name)
    M = s.load("conmech.struct.stiffness_matrix")
    S = s.load("conmech.dynamics.statement")
    I = s.load("conmech.dynamics.contact.interior_contact_law")
    scipy = s.loader.lib("scipy.optimize")
    got = {}

    def grab(fun, x0, args=(), **kw):
        got.clear()
        got.update(fun=fun, x0=x0, args=args)
        size = ONE
        for q in x0.shape:
            size = size * q
        x = A.make((A.dim(size),), lambda ix: app("xs", (lift(ix[0]),)))
        return x if direct else Obj(x=x)
    scipy.minimize = scipy.fsolve = grab

    def run():
        y = System(2, dims, dims, full=True)
        law = Law(2, dims, normal=lawkind != "none", nb=lawkind == "full", jt=lawkind == "full", tb=lawkind == "full")
        ns = {}
        if lawkind != "none":
            ns = dict(potential_normal_direction=staticmethod(law.jn), subderivative_normal_direction=staticmethod(law.jn))
        if lawkind == "full":
            ns.update(normal_bound=staticmethod(law.nb), potential_tangential_direction=staticmethod(law.jt), tangential_bound=staticmethod(law.tb))
        contact = type("GivenLaw", (I.InteriorContactLaw,) if lawkind == "interior" else (object,), ns) if lawkind != "none" else None
        if lawkind == "interior":
            contact = contact()     # the library looks at instances here
        st = StubStatement(y, dims, M)
        if base is not None:
            st.__class__ = type("Given" + base, (StubStatement, getattr(S, base)), {})
        md = 2
        body = Obj(mesh=Obj(nodes_count=y.n, dimension=md, nodes=y.nodes, contact_boundary=y.cb, contact_nodes_count=ivar("nc"),
                            boundaries=Obj(boundaries={}, contact_normals=y.normals)),
                   dynamics=Obj(elasticity=None, acceleration_operator=Obj(SM1=Obj(data=y.base))))
        sv = cls(st, body, y.dt, contact, False)
        sv.u_vector, sv.v_vector = y.u, y.old
        guess = A.symbolic("guess", (dims, y.n) if dims > 1 else (y.n,))
        out = sv.solve(guess)
        val = got["fun"](y.var, *got["args"])
        return y, law, sv, guess, out, val, dict(got)

    def check(f, y, law, sv, guess, out, val, g):
        a = ivar("a")
        f = f.extend(a >= 0, a < y.n)
        C.CTX[0].facts = f
        x0 = g["x0"].reshape(-1) if len(g["x0"].shape) > 1 else g["x0"]
        s.true("size of the starting point", A.dims_equal(x0.shape[0], y.N))
        o = out.reshape(-1) if len(out.shape) > 1 else out
        for c in range(dims):
            s.eq(f"starting point is the given guess [{c}]", x0.get((c * y.n + a,)), guess.get((c, a) if dims > 1 else (a,)), f, "_solve_impl")
            s.eq(f"the library's answer is returned [{c}]", o.get((c * y.n + a,)), app("xs", (c * y.n + a,)), f, "_solve_impl")
        if direct:
            def values(e):
                nr = [app("nr", (e, lift(k))) for k in range(2)]
                return [law.jn(sum((p * q for p, q in zip(x, nr)), ZERO), ZERO, ZERO) for x in y.samples(e, own_old=True)]
            for c in range(dims):
                s.zero(f"residual handed to the root finder [{c}]", lift(val.get((c * y.m + a,))) - y.residual(c, a) - y.force(c, a, values), f, "Direct")
        else:
            v = val.get((0,) * len(val.shape))
            if lawkind == "interior":
                i, j = tm.fresh("i", True), tm.fresh("j", True)
                want = y.quadratic() + tm.mk_sum(i, ZERO, y.m, tm.mk_sum(j, ZERO, y.m, app("base", (i, j)) * app("jn", (app("x", (j,)), app("u", (j,)), y.dt)))) / 2
            else:
                want = y.energy(law)
            s.zero("energy handed to the minimiser", lift(v) - want, f, "Optimization")
        y.unchanged(s)
    frees(s, "solve", run, check)


def sections(tier):
    out = [("energy [2d]", lambda s: energy(s, 2, 2, 2), 100), ("energy [3d]", lambda s: energy(s, 3, 3, 3), 200),
           ("energy [one component]", lambda s: energy(s, 2, 1, 1), 100), ("energy [one component, old displacement of two]", lambda s: energy(s, 2, 1, 2), 100)]
    for nm, kw in (("no law", dict(normal=False, nb=False, jt=False, tb=False)), ("normal part only", dict(nb=False, jt=False, tb=False)), ("constant bounds", dict(nb=2, tb=2)), ("no friction bound", dict(tb=False))):
        out.append((f"energy with {nm}", (lambda s, kw=kw: energy(s, 2, 2, 2, **kw)), 100))
        out.append((f"subgradient with {nm}", (lambda s, kw=kw: subgradient(s, 2, 2, 2, **kw)), 100))
    out.append(("subgradient [2d]", lambda s: subgradient(s, 2, 2, 2), 100))
    out.append(("subgradient [one component]", lambda s: subgradient(s, 2, 1, 1), 100))
    out.append(("subgradient of the boundary only", lambda s: subgradient(s, 2, 2, 2, only=True), 100))
    out.append(("subgradient [3d]", lambda s: subgradient(s, 3, 3, 3), 400))
    out.append(("residual", equation, 100))
    out.append(("interior contact of wave problems", interior, 60))
    for nm, dims, base, kind in (("StaticGlobalOptimization", 2, None, "full"), ("StaticGlobalOptimization", 2, None, "none"), ("QuasistaticGlobalOptimization", 2, None, "full"),
                                 ("DynamicGlobalOptimization", 2, None, "full"), ("StaticGlobalOptimization", 1, "StaticPoissonStatement", "normal"), ("DynamicGlobalOptimization", 1, "WaveStatement", "interior"),
                                 ("DynamicGlobalOptimization", 1, "WaveStatement", "normal"), ("Direct", 2, None, "normal")):
        out.append((f"problem handed to the library [{nm}, {dims} components, {base or 'plain'}, law: {kind}]", (lambda s, a=(nm, dims, base, kind): wiring(s, *a)), 120))
    return out
