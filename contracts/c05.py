"""C05: time-discrete systems of every problem class, on an arbitrary body."""
from contracts.lib import *

PR = "conmech.scenarios.problems"
FUNCTIONS = ["Statement.update (all subclasses)", "update_left_hand_side / update_right_hand_side of the twelve statements",
             "Problem.statement / second_statement of every problem class", "StiffnessMatrix operators", "SM2.SM1 / SM3.SM1"]
ASSUMPTIONS = ["the body's operators, state vectors, time and (non-zero) time step are arbitrary",
               "callee contracts: BodyForces.integrate(time) returns a fresh vector depending on time (C12); Dynamics.relaxation(time) returns the operator of that time (C03)"]


class Sys:
    pass


def body(s, d, log, dirichlet=False):
    M = s.load("conmech.struct.stiffness_matrix")
    n = ivar("n")
    dt, t = var("dt"), var("t")
    ctx().assume(n >= 1, dt > 0)
    SMd = getattr(M, f"SM{d}")
    SM1d = getattr(M, f"SM1to{d}")
    ops = {}

    def op(name, cls, r, q):
        o = cls(A.symbolic(name, (r * n, q * n)))
        ops[name] = o
        return o
    size = {"force": d, "temp": 1}

    def load(kind, comps):
        def integrate(time):
            log.append((kind, time))
            return A.make((comps * n,), lambda ix: app("F" + kind, (lift(time), lift(ix[0]))))
        return Obj(integrate=integrate)

    def relaxation(time=0):
        log.append(("relaxation", time))
        key = "Rlx" + repr(time)[:40]
        if key not in ops:
            ops[key] = SMd(A.make((d * n, d * n), lambda ix: app("Rlx", (lift(time), lift(ix[0]), lift(ix[1])))))
        return ops[key]
    dyn = Obj(elasticity=op("E", SMd, d, d), viscosity=op("N", SMd, d, d), acceleration_operator=op("M", SMd, d, d),
              thermal_expansion=op("C", SM1d, 1, d), thermal_conductivity=op("K", M.SM1, 1, 1),
              piezoelectricity=op("P", SM1d, 1, d), permittivity=op("B", M.SM1, 1, 1), poisson_operator=op("L", M.SM1, 1, 1),
              relaxation=relaxation, temperature=load("temp", 1))
    bnd = {}
    if dirichlet:
        p, q = ivar("p"), ivar("q")
        ctx().assume(p >= 0, p < q, q <= n)
        bnd["dirichlet"] = Obj(node_indices=slice(p, q), node_condition=A.symbolic("cd", (q - p,)), node_count=q - p)
    def gai(boundary, total, dimension):
        i = bnd[boundary].node_indices
        for k in range(dimension):
            yield slice(i.start + k * total, i.stop + k * total), slice(0, i.stop - i.start)
    b = Obj(mesh=Obj(dimension=d, nodes_count=n, boundaries=Obj(boundaries=bnd, get_all_boundary_indices=gai)), dynamics=dyn)
    return b, ops, n, load


def variables(s, d, n, tag=""):
    V = s.load("conmech.dynamics.statement").Variables
    mk = lambda nm, k: A.symbolic(nm + tag, (k * n,))
    arrs = dict(absement=mk("b", d), displacement=mk("u", d), velocity=mk("v", d), temperature=mk("th", 1), electric_potential=mk("ph", 1))
    t = var("t" + tag)
    dt = var("dt" + tag)
    ctx().assume(dt > 0)
    return V(time_step=dt, time=t, **arrs), arrs, t, dt


def mv(name, i, vec, lo, cols, tr=False):
    """sum_j name[i,j]*vec[j]"""
    q = tm.fresh("q", True)
    ent = app(name, (q, i)) if tr else app(name, (lift(i), q))
    return tm.mk_sum(q, ZERO, lift(cols), ent * app(vec, (q,)))


def spec_of(d, n, tag, t, dt):
    e = lambda nm: (lambda i, j: app(nm, (lift(i), lift(j))))
    E, N, M_, K, L, Bp = (e(x) for x in "ENMKLB")
    R = lambda i, j: app("Rlx", (t, lift(i), lift(j)))
    N_ = d * n
    F = lambda i: app("Fforce", (t, lift(i)))
    F0 = lambda i: app("Fforce", (ZERO, lift(i)))

    def rmv(i, vec):
        q = tm.fresh("q", True)
        return tm.mk_sum(q, ZERO, N_, app("Rlx", (t, lift(i), q)) * app(vec, (q,)))
    u, v, b, th, ph = ("u" + tag, "v" + tag, "b" + tag, "th" + tag, "ph" + tag)
    inv = ONE / dt
    dyn_l = lambda i, j: N(i, j) + inv * M_(i, j) + dt * E(i, j)
    dyn_r = lambda i: F(i) - mv("E", i, u, 0, N_) + inv * mv("M", i, v, 0, N_)
    qs_l = lambda i, j: N(i, j) + dt * E(i, j)
    qs_r = lambda i: F(i) - mv("E", i, u, 0, N_)
    return {
        "StaticDisplacementProblem": (d, E, F0),
        "QuasistaticDisplacementProblem": (d, qs_l, qs_r),
        "DynamicDisplacementProblem": (d, dyn_l, dyn_r),
        "RelaxationQuasistaticProblem": (d, lambda i, j: E(i, j) + dt * R(i, j), lambda i: F(i) - rmv(i, b)),
        "WaveProblem": (1, lambda i, j: inv * M_(i, j) + dt * L(i, j), lambda i: F(i) - mv("L", i, u, 0, n) + inv * mv("M", i, v, 0, n)),
        "PoissonProblem/2": (1, L, lambda i: app("Ftemp", (ZERO, lift(i)))),
        "TemperatureDynamicProblem": (d, dyn_l, lambda i: dyn_r(i) + mv("C", i, th, 0, n, tr=True)),
        "TemperatureDynamicProblem/2": (1, lambda i, j: inv * M_(i, j) + K(i, j), lambda i: -mv("C", i, v, 0, N_) + inv * mv("M", i, th, 0, n)),
        "PiezoelectricQuasistaticProblem": (d, qs_l, lambda i: qs_r(i) - mv("P", i, ph, 0, n, tr=True)),
        "PiezoelectricQuasistaticProblem/2": (1, Bp, lambda i: mv("P", i, u, 0, N_)),
        "PiezoelectricDynamicProblem": (d, dyn_l, lambda i: dyn_r(i) - mv("P", i, ph, 0, n, tr=True)),
        "PiezoelectricDynamicProblem/2": (1, Bp, lambda i: mv("P", i, u, 0, N_)),
    }


def problem(s, key, d):
    cname, second = (key.split("/")[0], key.endswith("/2"))
    cls = s.get(PR, cname)
    log = []

    def run():
        del log[:]
        b, ops, n, load = body(s, d, log)
        b.dynamics.force = load("force", 1 if cname == "WaveProblem" else d)
        st = cls.second_statement(b) if second else cls.statement(b)
        var0, arrs0, t0, dt0 = variables(s, d, n, "0")
        var1, arrs, t, dt = variables(s, d, n)
        fr = {k: frozen(o.data) for k, o in ops.items()}
        va = {k: frozen(a) for k, a in arrs.items()}
        st.update(var0)            # an earlier update must leave no trace
        st.update(var1)
        return st, b, ops, n, fr, va, arrs, t, dt
    paths = explore(run)
    s.no_exception("update", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        st, b, ops, n, fr, va, arrs, t, dt = p.value
        if st is None:
            s.record("statement exists", "refuted", "symbolic execution", "no statement")
            continue
        k, lhs, rhs = spec_of(d, n, "", t, dt)[key]
        s.true("number of components", st.dimension_in == k and st.dimension_out == k)
        s.true("matrix class", getattr(st.left_hand_side, "DIMENSION", None) == (k, k))
        s.array_eq("left hand side", st.left_hand_side.data, lambda ix: lhs(*ix), shape=(k * n, k * n), fn=cname)
        s.array_eq("right hand side", st.right_hand_side, lambda ix: rhs(*ix), shape=(k * n,), fn=cname)
        for nm, o in ops.items():
            if nm in fr:
                s.array_eq(f"frame: operator {nm} unchanged", o.data, fr[nm])
        for nm, a in arrs.items():
            s.array_eq(f"frame: {nm} unchanged", a, va[nm])
        s.defs("divisions are defined")
    s.nonvacuous()


def frame_dirichlet(s, key, d):
    """a full update with a Dirichlet block writes only the system, never the operators or the state"""
    cname, second = (key.split("/")[0], key.endswith("/2"))
    cls = s.get(PR, cname)
    log = []

    def run():
        del log[:]
        b, ops, n, load = body(s, d, log, True)
        if second and "Piezo" in cname:
            b.mesh.boundaries.boundaries["piezo_dirichlet"] = b.mesh.boundaries.boundaries["dirichlet"]
        b.dynamics.force = load("force", 1 if cname == "WaveProblem" else d)
        st = cls.second_statement(b) if second else cls.statement(b)
        var1, arrs, t, dt = variables(s, d, n)
        fr = {k: frozen(o.data) for k, o in ops.items()}
        va = {k: frozen(a) for k, a in arrs.items()}
        st.update(var1)
        return st, ops, fr, va, arrs
    paths = explore(run)
    s.no_exception("update", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        st, ops, fr, va, arrs = p.value
        for nm, o in ops.items():
            if nm in fr:
                s.array_eq(f"frame: operator {nm} unchanged", o.data, fr[nm])
        for nm, a in arrs.items():
            s.array_eq(f"frame: {nm} unchanged", a, va[nm])
    s.nonvacuous()


def sections(tier):
    keys = ["StaticDisplacementProblem", "QuasistaticDisplacementProblem", "DynamicDisplacementProblem", "RelaxationQuasistaticProblem", "WaveProblem",
            "PoissonProblem/2", "TemperatureDynamicProblem", "TemperatureDynamicProblem/2", "PiezoelectricQuasistaticProblem",
            "PiezoelectricQuasistaticProblem/2", "PiezoelectricDynamicProblem", "PiezoelectricDynamicProblem/2"]
    out = []
    for k in keys:
        for d in (2, 3):
            out.append((f"{k.replace('/2', ' (second equation)')}[{d}d]", (lambda s, k=k, d=d: problem(s, k, d)), 200))
        out.append((f"{k.replace('/2', ' (second equation)')} frame with Dirichlet", (lambda s, k=k: frame_dirichlet(s, k, 2)), 200))
    return out
