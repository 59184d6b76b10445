"""C07: Schur complement."""
from contracts.lib import *

MOD = "conmech.solvers.optimization.schur_complement"
FUNCTIONS = ["SchurComplementOptimization.__init__", "recalculate_displacement", "recalculate_forces", "lhs / rhs", "_solve_impl", "truncate_free_nodes",
             "complement_free_nodes", "merge", "iterate of the four registered Schur solvers", "calculate_schur_complement_matrices", "calculate_schur_complement_vector",
             "nph.stack_column", "nph.unstack", "Solver.__init__", "Optimization.__init__"]
ASSUMPTIONS = ["precondition: the free block of the system matrix is invertible, at least one contact and one free node",
               "library contract: numpy.linalg.inv returns the two-sided inverse",
               "callee contract: Optimization._solve_impl (the iterative minimiser) returns an arbitrary vector of the reduced size"]


class StubStatement:
    """system matrix and load as functions of the time of the last update"""
    def __init__(self, dims, n, SM, timed):
        self.dimension_in = self.dimension_out = dims
        self.n, self.SM, self.timed = n, SM, timed
        self.updates = []

    def update(self, var):
        self.updates.append(var)
        N = self.dimension_in * self.n
        t = lift(var.time)
        tl = t if self.timed else ZERO
        self.left_hand_side = self.SM(A.make((N, N), lambda ix: app("L", (tl, lift(ix[0]), lift(ix[1])))))
        self.right_hand_side = A.make((N,), lambda ix: app("r", (t, lift(ix[0]))))


def make(s, cls, dims, driving=False, timed=False):
    M = s.load("conmech.struct.stiffness_matrix")
    nc, nf = ivar("nc"), ivar("nf")
    ctx().assume(nc >= 1, nf >= 1)
    n = nc + nf
    md = 2 if driving else dims
    SM = {1: M.SM1, 2: M.SM2, 3: M.SM3}[dims]
    st = StubStatement(dims, n, SM, timed)
    body = Obj(mesh=Obj(nodes_count=n, dimension=md, contact_nodes_count=nc, boundaries=Obj(boundaries={})), dynamics=Obj(elasticity=None))
    sv = cls(st, body, var("dt"), None, driving)
    return sv, st, nc, nf, n


def tl(st):
    return lift(st.updates[-1].time) if st.timed else ZERO


def minimiser(s, sv):
    """replace the iterative minimiser (parent class) by its contract"""
    O = s.load("conmech.solvers.optimization.optimization").Optimization
    got = []

    def impl(self, guess, **kw):
        g = guess
        size = ONE
        for d in g.shape:
            size = size * d
        got.append((g, size))
        return A.make((A.dim(size),), lambda ix: app("xc", (lift(ix[0]),)))
    O._solve_impl = impl
    return got


def residuals(s, label, sv, st, x, dims, nc, nf, n, used):
    """full residual: zero on free unknowns, reduced residual on contact unknowns"""
    c = ctx()
    t = tl(st)
    tr = lift(st.updates[-1].time)
    N = dims * n

    def res(i):
        q = [tm.fresh("q", True) for _ in range(2 * dims)]
        tot = -app("r", (tr, i))
        for k in range(dims):
            tot = tot + tm.mk_sum(q[2 * k], ZERO, nc, app("L", (t, i, k * n + q[2 * k])) * x.get((k * n + q[2 * k],)))
            tot = tot + tm.mk_sum(q[2 * k + 1], ZERO, nf, app("L", (t, i, k * n + nc + q[2 * k + 1])) * x.get((k * n + nc + q[2 * k + 1],)))
        return tot
    a = ivar("a")
    old = c.facts
    rhs = sv.rhs if len(sv.rhs.shape) == 1 else sv.rhs[0]
    lhs = sv.lhs
    for k in range(dims):
        f = old.extend(a >= 0, a < nf)
        c.facts = f
        try:
            s.zero(f"{label}: no residual on free unknowns of component {k}", res(k * n + nc + a), f, "_solve_impl")
        finally:
            c.facts = old
        f = old.extend(a >= 0, a < nc)
        c.facts = f
        try:
            q = [tm.fresh("q", True) for _ in range(dims)]
            red = -lift(rhs.get((k * nc + a,)))
            for l in range(dims):
                red = red + tm.mk_sum(q[l], ZERO, nc, lift(lhs.get((k * nc + a, l * nc + q[l]))) * app("xc", (l * nc + q[l],)))
            s.zero(f"{label}: residual on contact unknowns of component {k} is the reduced one", res(k * n + a) - red, f, "_solve_impl")
        finally:
            c.facts = old


def reduction(s, dims, name):
    cls = s.get(MOD, name)

    def run():
        sv, st, nc, nf, n = make(s, cls, dims)
        got = minimiser(s, sv)
        guess = A.symbolic("guess", (dims, n) if dims > 1 else (n,))
        x = sv._solve_impl(guess, variable_old=sv.v_vector, displacement=sv.u_vector)
        return sv, st, nc, nf, n, x, guess, got
    paths = explore(run)
    s.no_exception("solve", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        sv, st, nc, nf, n, x, guess, got = p.value
        ok = len(x.shape) == 1 and A.dims_equal(x.shape[0], dims * n)
        s.true("solution has one value per unknown", ok)
        if not ok:
            continue
        residuals(s, "system", sv, st, x, dims, nc, nf, n, None)
        a = ivar("a")
        f = p.ctx.facts.extend(a >= 0, a < nc)
        for k in range(dims):
            s.eq(f"contact values of component {k} are the minimiser's", x.get((k * n + a,)), app("xc", (k * nc + a,)), f, "merge")
        g, size = got[-1]
        s.zero("reduced guess has one value per contact unknown", lift(size) - dims * nc)
        flat = g.reshape(-1) if len(g.shape) > 1 else g
        for k in range(dims):
            s.eq(f"reduced guess of component {k}", flat.get((k * nc + a,)), guess.get((k, a) if dims > 1 else (a,)), f, "truncate_free_nodes")
        s.array_eq("frame: guess unchanged", guess, lambda ix: app("guess", tuple(lift(i) for i in ix)))
        N = dims * n
        t = tl(st)
        s.array_eq("frame: system matrix unchanged", st.left_hand_side.data, lambda ix: app("L", (t, lift(ix[0]), lift(ix[1]))))
        s.array_eq("frame: system load unchanged", st.right_hand_side, lambda ix: app("r", (lift(st.updates[-1].time), lift(ix[0]))))
    s.nonvacuous()


def driving(s):
    """one-component problems in two-component storage: the first component carries the solution, the second is zero"""
    cls = s.get(MOD, "DynamicSchurOptimization")

    def run():
        sv, st, nc, nf, n = make(s, cls, 1, True)
        got = minimiser(s, sv)
        guess = A.symbolic("guess", (2, n))
        x = sv._solve_impl(guess, variable_old=sv.v_vector, displacement=sv.u_vector)
        return sv, st, nc, nf, n, x, guess, got
    paths = explore(run)
    s.no_exception("solve", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        sv, st, nc, nf, n, x, guess, got = p.value
        ok = len(x.shape) == 1 and A.dims_equal(x.shape[0], 2 * n)
        s.true("solution has two values per node", ok)
        if not ok:
            continue
        residuals(s, "system", sv, st, x, 1, nc, nf, n, None)
        a = ivar("a")
        f = p.ctx.facts.extend(a >= 0, a < n)
        s.zero("second component is zero", lift(x.get((n + a,))), f)
        g, size = got[-1]
        s.zero("reduced guess has one value per contact node", lift(size) - nc)
        flat = g.reshape(-1) if len(g.shape) > 1 else g
        f = p.ctx.facts.extend(a >= 0, a < nc)
        s.eq("reduced guess", flat.get((a,)), guess.get((0, a)), f)
    s.nonvacuous()


def inverse(s, dims):
    """truncate and merge are inverse to one another"""
    cls = s.get(MOD, "SchurComplementOptimization")

    def run():
        sv, st, nc, nf, n = make(s, cls, dims)
        xc, xf = A.symbolic("xc", (dims * nc,)), A.symbolic("xf", (dims * nf, 1) if dims > 1 else (nf,))
        m = sv.merge(xc, xf)
        back = sv.truncate_free_nodes(m.reshape(dims, -1) if dims > 1 else m)
        return nc, nf, n, m, back
    paths = explore(run)
    s.no_exception("merge and truncate", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        nc, nf, n, m, back = p.value
        a = ivar("a")
        f = p.ctx.facts.extend(a >= 0, a < nc)
        fl = back.reshape(-1) if len(back.shape) > 1 else back
        s.true("size", A.dims_equal(m.shape[0], dims * n) and A.dims_equal(fl.shape[0], dims * nc))
        for k in range(dims):
            s.eq(f"contact value placed [{k}]", m.get((k * n + a,)), app("xc", (k * nc + a,)), f, "merge")
            s.eq(f"truncate after merge [{k}]", fl.get((k * nc + a,)), app("xc", (k * nc + a,)), f, "truncate_free_nodes")
        f = p.ctx.facts.extend(a >= 0, a < nf)
        for k in range(dims):
            want = app("xf", (k * nf + a, ZERO)) if dims > 1 else app("xf", (a,))
            s.eq(f"free value placed [{k}]", m.get((k * n + nc + a,)), want, f, "merge")
    s.nonvacuous()


def current(s, name, timed, dims=2):
    """after iterate() the reduced system is that of the statement at the present time"""
    cls = s.get(MOD, name)

    def run():
        sv, st, nc, nf, n = make(s, cls, dims, timed=timed)
        got = minimiser(s, sv)
        for k in range(2):
            sv.current_time = var(f"t{k + 1}")
            sv.iterate()
        guess = A.symbolic("guess", (dims, n))
        x = sv._solve_impl(guess, variable_old=sv.v_vector, displacement=sv.u_vector)
        return sv, st, nc, nf, n, x
    paths = explore(run)
    s.no_exception("iterate and solve", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        sv, st, nc, nf, n, x = p.value
        s.zero("system of the present time", lift(st.updates[-1].time) - var("t2"))
        residuals(s, "after iterate", sv, st, x, dims, nc, nf, n, None)
    s.nonvacuous()


def sections(tier):
    out = []
    for d in (1, 2, 3):
        out.append((f"reduction and completion [{d} components]", (lambda s, d=d: reduction(s, d, "StaticSchurOptimization")), 300))
        out.append((f"merge and truncate [{d} components]", (lambda s, d=d: inverse(s, d)), 100))
    out.append(("one component in two-component storage", driving, 200))
    for nm, tmd in (("QuasistaticSchurOptimization", False), ("QuasistaticRelaxed", True), ("DynamicSchurOptimization", False)):
        out.append((f"current system [{nm}]", (lambda s, nm=nm, tmd=tmd: current(s, nm, tmd)), 300))
    return out
