"""Random systems, surfaces, normals and laws through the generated energy, subgradient and residual functions, and through
the functions the real solvers hand to the minimiser / root finder, against direct sums over facets and samples."""
import scipy.optimize
from bounded.lib import *
from conmech.solvers.solver_methods import make_cost_functional, make_subgradient, make_equation
from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw


def measure(edge, nodes, known=False):
    x = nodes[edge]
    if known:       # listed finding: in 3-D the library uses two coordinates of two of the three nodes
        return float(np.hypot(x[0][0] - x[1][0], x[0][1] - x[1][1]))
    return facet_measure(x)


def samples(edge, var, old, dim):
    """values at the midpoint and at the nodes of a facet; nodes outside the reduced system take the old values"""
    off, offf = len(var) // dim, len(old) // dim
    vals = np.array([[var[c * off + k] if k < off else old[c * offf + k] for c in range(dim)] for k in edge])
    return [vals.mean(axis=0)] + list(vals)


def parts(v, nrm, dim):
    if dim == 1:
        return v[0], np.empty(0)
    vn = float(v @ nrm)
    return vn, v - vn * nrm


def energy(var, old, nodes, cb, nr, A, r, u, dt, jn, nb, jt, tb, vd, pd, known=False):
    tot = 0.5 * var[: len(A)] @ A @ var[: len(A)] - r @ var[: len(A)]
    for e, edge in enumerate(cb):
        sm = samples(edge, var, old, vd)
        du = samples(edge, u, u, pd)[0]
        dn = float((du * nr[e]).sum())
        dtau = du - dn * nr[e]
        for v in sm:
            vn, vt = parts(v, nr[e], vd)
            tot += measure(edge, nodes, known) / len(sm) * (nb(vn, dn, dt) * jn(vn, dn, dt) + tb(vn, dn, dt) * jt(vt, dtau, dt))
    return tot


def forces(var, old, nodes, cb, nr, u, dt, g, nb, gt, tb, vd, pd, known=False, zero_static=False):
    """contact force vector: normal direction only, shared equally by the facet's nodes"""
    off = len(var) // vd
    out = np.zeros_like(var)
    for e, edge in enumerate(cb):
        sm = samples(edge, var, old, vd)
        du = samples(edge, u, u, pd)[0]
        dn = float((du * nr[e]).sum())
        dtau = du - dn * nr[e]
        for v in sm:
            vn, vt = parts(v, nr[e], vd)
            f = measure(edge, nodes, known) / len(sm) * (nb(vn, dn, dt) * g(vn, dn, dt) + tb(vn, dn, dt) * gt(vt, dtau, dt))
            for k in edge:
                for c in range(vd):
                    if k < off:
                        out[c * off + k] += f * nr[e][c] / len(edge)
    return out


def system(rng, d, i):
    pts, el = random_mesh(rng, d)
    cnt, _ = facets(el)
    bf = [f for f, c in cnt.items() if c == 1]
    m = int(rng.integers(1, len(bf) + 1))
    if i % 9 == 8:
        m = 0
    cb = np.array([bf[k] for k in rng.permutation(len(bf))[:m]], dtype=np.int64).reshape(-1, d)
    cb = np.array([rng.permutation(f) for f in cb], dtype=np.int64).reshape(-1, d)
    nr = rng.normal(size=(len(cb), d))
    nr = nr / np.linalg.norm(nr, axis=1, keepdims=True) if len(cb) else nr
    return pts, cb, nr


def laws(rng, i):
    a, b, c, e = rng.uniform(0.2, 3, 4)
    jn = [lambda v, d, t: a * v * v + b * d + c * t * v, lambda v, d, t: a * max(v, 0.0) ** 2, lambda v, d, t: a + 0 * v][i % 3]
    nb = [None, lambda v, d, t: 1 + b * v * v + c * d + a * t, 2.5][(i // 3) % 3]
    jt = [None, lambda v, d, t: c * np.sqrt((v * v).sum() + 1e-3) + e * d.sum() * t][(i // 2) % 2]
    tb = [None, lambda v, d, t: e + v * v + d + b * t, 0.5][(i // 5) % 3]
    return jn, nb, jt, tb


def fill(f, val):
    if f is None:
        return lambda *_: val
    if isinstance(f, (int, float)):
        return lambda *_: f
    return f


def compare(fn, want, want_known, d, what, tol=1e-9, data=None):
    """3-D results that agree only with the listed 3-D measure are the listed finding"""
    try:
        close(fn, want, what, tol, data=data)
    except Failure:
        if d == 3:
            try:
                close(fn, want_known, what, tol)
            except Failure:
                raise
            raise Failure(what + ": 3-D facet measure", data, "facet-measure-3d")
        raise


def reduced(rng, n, vd):
    """size of the reduced system: all nodes, or the first few (Schur)"""
    m = n if rng.random() < 0.5 else int(rng.integers(1, n + 1))
    return m, vd * m


@case(120, 1500)
def energy_function(rng, i):
    return one_energy(rng, i)


@case(128, 1280)
def energy_special(rng, i):
    """unknowns, old values and displacements zero, one-hot, tiny, huge, constant or sparse; steps from 0 to 100; zero systems"""
    return one_energy(rng, i, special=True)


def vectors(rng, i, var, old, u, A, r, special):
    """(unknown, old values, displacement, system) replaced in turn by special ones"""
    if special:
        k, w = (i // 4) % 8, i % 4
        if w in (0, 3):
            var = state(rng, len(var), k)
        if w in (1, 3):
            old = state(rng, len(old), k if w == 1 else int(rng.integers(8)))
        if w in (2, 3):
            u = state(rng, len(u), k if w == 2 else int(rng.integers(8)))
        if i % 3 == 1:
            A = np.zeros_like(A)
        if i % 5 in (1, 2):
            r = np.zeros_like(r)
    return var, old, u, A, r


def step(rng, i):
    return [0.0, 1e-6, 100.0, 1.0, 1e-3, float(rng.uniform(0.1, 2))][i % 6]


def one_energy(rng, i, special=False):
    d = 3 if i % 6 == 5 else 2
    pts, cb, nr = system(rng, d, i)
    n = len(pts)
    jn, nb, jt, tb = laws(rng, i)
    vd = 1 if i % 5 == 4 else d
    if vd == 1 and jt is not None:
        jt = lambda v, dd, t: 0.7 * t
    pd = d
    m, N = reduced(rng, n, vd)
    A, r = rng.normal(size=(N, N)), rng.normal(size=N)
    var, old, u, dt = rng.normal(size=N), rng.normal(size=max(vd, 2) * n)[: vd * n], rng.normal(size=pd * n), float(rng.uniform(0.1, 2))
    var, old, u, A, r = vectors(rng, i, var, old, u, A, r, special)
    dt = step(rng, i // 2) if special else dt
    M = rng.normal(size=(n, n))
    f = make_cost_functional(jn, nb, jt, tb, variable_dimension=vd, problem_dimension=pd)
    args = [x.copy() for x in (var, old, pts, cb, nr, A, r, u, M)]
    got = f(*args, dt)
    data = dict(d=d, vd=vd, n=n, m=m, cb=cb.tolist(), nodes=pts.tolist(), i=i)
    for x, y in zip(args, (var, old, pts, cb, nr, A, r, u, M)):
        need(np.array_equal(x, y), "evaluating the energy changed its arguments", data)
    J = [fill(jn, 0), fill(nb, 1), fill(jt, 0), fill(tb, 1)]
    w = energy(var, old, pts, cb, nr, A, r, u, dt, *J, vd, pd)
    wk = energy(var, old, pts, cb, nr, A, r, u, dt, *J, vd, pd, known=True)
    need(np.size(got) == 1, "the energy is one number", data)
    compare(np.ravel(got)[0], w, wk, d, "energy", data=data)
    return f"d={d} vd={vd} {len(cb)} facets, {m} of {n} nodes, laws {i % 90}"


@case(120, 1500)
def subgradient_function(rng, i):
    return one_subgradient(rng, i)


@case(128, 1280)
def subgradient_special(rng, i):
    return one_subgradient(rng, i, special=True)


def one_subgradient(rng, i, special=False):
    d = 3 if i % 6 == 5 else 2
    pts, cb, nr = system(rng, d, i)
    n = len(pts)
    jn, nb, jt, tb = laws(rng, i)
    vd = d
    m, N = reduced(rng, n, vd)
    A, r = rng.normal(size=(N, N)), rng.normal(size=N)
    var, old, u, dt = rng.normal(size=N), rng.normal(size=vd * n), rng.normal(size=d * n), float(rng.uniform(0.1, 2))
    var, old, u, A, r = vectors(rng, i, var, old, u, A, r, special)
    dt = step(rng, i // 2) if special else dt
    M = rng.normal(size=(n, n))
    only = bool(i % 4 == 3)
    f = make_subgradient(jn, nb, jt, tb, variable_dimension=vd, problem_dimension=d, only_boundary=only)
    args = [x.copy() for x in (var, old, pts, cb, nr, A, r, u, M)]
    got = f(*args, dt)
    data = dict(d=d, n=n, m=m, cb=cb.tolist(), nodes=pts.tolist(), i=i)
    for x, y in zip(args, (var, old, pts, cb, nr, A, r, u, M)):
        need(np.array_equal(x, y), "evaluating the subgradient changed its arguments", data)
    J = [fill(jn, 0), fill(nb, 1), fill(jt, 0), fill(tb, 1)]
    base = 0 if only else A @ var - r
    compare(got, base + forces(var, old, pts, cb, nr, u, dt, *J, vd, d), base + forces(var, old, pts, cb, nr, u, dt, *J, vd, d, known=True), d, "subgradient", data=data)
    return f"d={d} {len(cb)} facets, {m} of {n} nodes, only_boundary={only}"


@case(80, 1000)
def residual_function(rng, i):
    return one_residual(rng, i)


@case(128, 1280)
def residual_special(rng, i):
    return one_residual(rng, i, special=True)


def one_residual(rng, i, special=False):
    d = 2
    pts, cb, nr = system(rng, d, i)
    n = len(pts)
    a, b = rng.uniform(0.2, 3, 2)
    g = [lambda v, dd, t: a * max(v, 0.0), lambda v, dd, t: a + b * v][i % 2]
    m, N = reduced(rng, n, 2)
    if m < n:
        cb = cb[[all(k < m for k in e) for e in cb]] if len(cb) else cb
        nr = nr[: len(cb)]
    A, r = rng.normal(size=(N, N)), rng.normal(size=N)
    var, old, u, dt = rng.normal(size=N), rng.normal(size=2 * n), rng.normal(size=2 * n), float(rng.uniform(0.1, 2))
    var, old, u, A, r = vectors(rng, i, var, old, u, A, r, special)
    dt = step(rng, i // 2) if special else dt
    M = rng.normal(size=(n, n))
    f = make_equation(jn=g)
    args = [x.copy() for x in (var, old, pts, cb, nr, A, r, u, M)]
    got = f(*args, dt)
    data = dict(n=n, m=m, cb=cb.tolist(), nodes=pts.tolist(), i=i)
    for x, y in zip(args, (var, old, pts, cb, nr, A, r, u, M)):
        need(np.array_equal(x, y), "evaluating the residual changed its arguments", data)
    one = lambda *_: 1.0
    want = A @ var - r + forces(var, var, pts, cb, nr, np.zeros_like(u), 0.0, g, one, lambda *_: 0.0, one, 2, 2)
    close(got, want, "residual", 1e-9, data=data)
    return f"{len(cb)} facets {m} of {n} nodes"


@case(24, 200)
def interior(rng, i):
    """wave problems with contact inside the body: one value per node, the law's potential integrated with the volume matrix"""
    n = int(rng.integers(1, 9))
    a, b = rng.uniform(0.2, 3, 2)
    g = [lambda v, d, t: a * max(d + t * v - b, 0.0), lambda v, d, t: a * v + b * d + t, lambda v, d, t: 0.0 if d + t * v < b else a * v * v][i % 3]
    A, r, M = rng.normal(size=(n, n)), rng.normal(size=n), rng.normal(size=(n, n))
    var, old, u, dt = rng.normal(size=n), rng.normal(size=n), rng.normal(size=n), float(rng.uniform(0.1, 2))
    if i % 4 == 3:      # the solvers hand in a second component, which is not part of the system
        var, old, u = np.append(var, np.zeros(n)), rng.normal(size=2 * n), rng.normal(size=2 * n)
    pts, cb, nr = rng.normal(size=(n, 2)), np.zeros((0, 2), dtype=int), np.zeros((0, 2))
    f = make_equation(jn=None, contact=g)
    args = [x.copy() for x in (var, old, pts, cb, nr, A, r, u, M)]
    got = f(*args, dt)
    data = dict(n=n, i=i)
    for x, y in zip(args, (var, old, pts, cb, nr, A, r, u, M)):
        need(np.array_equal(x, y), "evaluating the interior functional changed its arguments", data)
    need(np.size(got) == 1, "one number", data)
    var = var[:n]
    want = 0.5 * var @ A @ var - r @ var + 0.5 * sum(M[p, q] * g(var[q], u[q], dt) for p in range(n) for q in range(n))
    close(float(np.ravel(got)[0]), want, "interior functional", 1e-9, data=data)
    return f"{n} nodes"


@case(24, 200)
def derivative(rng, i):
    """for a law whose response is the derivative of its potential, residual and subgradient balance the energy's change
    under rigid translations of a facet's nodes: total force over each facet is the integrated response"""
    pts, cb, nr = system(rng, 2, 0)
    cb, nr = cb[:1], nr[:1]
    n = len(pts)
    a = float(rng.uniform(0.5, 3))
    P, R = (lambda v, d, t: 0.5 * a * v * v), (lambda v, d, t: a * v)
    A, r = np.zeros((2 * n, 2 * n)), np.zeros(2 * n)
    x, u, M = rng.normal(size=2 * n), rng.normal(size=2 * n), np.eye(n)
    E = make_cost_functional(P)
    val = lambda y: float(np.ravel(E(y, u, pts, cb, nr, A, r, u, M, 0.5))[0])
    for f, nm in ((make_subgradient(R), "subgradient"), (make_equation(jn=R), "residual")):
        F = f(x, u, pts, cb, nr, A, r, u, M, 0.5)
        for c in range(2):
            dirn = np.zeros(2 * n)
            for k in cb[0]:
                dirn[c * n + k] = 1
            h = 1e-4
            close(F @ dirn, (val(x + h * dirn) - val(x - h * dirn)) / (2 * h), f"total {nm} force over a facet", 1e-6, data=dict(cb=cb.tolist(), nodes=pts.tolist()))
        off = np.ones(2 * n, dtype=bool)
        for k in cb[0]:
            off[[k, n + k]] = False
        need(not F[off].any(), f"{nm} force outside the contact surface")
        for k in cb[0]:
            close(F[k] * nr[0][1] - F[n + k] * nr[0][0], 0.0, f"{nm} force is not along the normal", 1e-9)
    return f"{cb.tolist()} a={a:.3f}"


class Caught(BaseException):
    pass


@case(36, 300)
def wiring(rng, i):
    """what the solvers hand to the minimiser and to the root finder"""
    from conmech.scenarios.problems import StaticDisplacementProblem, DynamicDisplacementProblem
    from conmech.simulations.problem_solver import StaticSolver, TimeDependentSolver
    a, b, c, e = [float(x) for x in rng.uniform(0.2, 3, 4)]

    class Law(DirectContactLaw, PotentialOfContactLaw):
        potential_normal_direction = staticmethod(lambda v, d, t: a * v * v + b * d + t)
        subderivative_normal_direction = staticmethod(lambda v, d, t: a * v + 0.3)
        normal_bound = staticmethod(lambda v, d, t: 1 + v * v + t)
        potential_tangential_direction = staticmethod(lambda v, d, t: c * (v * v).sum() + d.sum())
        tangential_bound = staticmethod(lambda v, d, t: e + d + b * t)
    method = ["schur", "global", "direct"][i % 3]
    dyn = i % 2 == 1
    descr = CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[1, 1])
    bd = BoundariesDescription(contact=lambda x: x[1] == 0 or x[0] == 1, dirichlet=lambda x: x[0] == 0)
    com = dict(inner=lambda x, t=None: np.array([0.1, -0.4]), outer=lambda x, t=None: np.array([0.2, 0.1]), mu_coef=2.0, la_coef=1.0, contact_law=Law)
    if dyn:
        s = TimeDependentSolver(problem(DynamicDisplacementProblem, descr, bd, th_coef=1.0, ze_coef=2.0, time_step=0.25, **com), method)
    else:
        s = StaticSolver(problem(StaticDisplacementProblem, descr, bd, **com), method)
    sv, m = s.step_solver, s.body.mesh
    n = m.nodes_count
    sv.u_vector[:] = rng.normal(size=2 * n)
    sv.v_vector[:] = rng.normal(size=2 * n)
    got = {}

    def grab(fun, x0, args=(), **kw):
        got.update(fun=fun, x0=x0, args=args)
        raise Caught()
    names = ("minimize", "fsolve")
    keep = [getattr(scipy.optimize, q) for q in names]
    for q in names:
        setattr(scipy.optimize, q, grab)
    guess = rng.normal(size=(2, n))
    try:
        try:
            sv.solve(guess)
        except Caught:
            pass
    finally:
        for q, v in zip(names, keep):
            setattr(scipy.optimize, q, v)
    need("fun" in got, "the solver did not call the minimiser / root finder")
    A0, r0 = np.array(sv.statement.left_hand_side.data), np.array(sv.statement.right_hand_side)
    if method == "schur":
        nc = m.contact_nodes_count
        ci = np.concatenate([np.arange(nc), n + np.arange(nc)])
        fi = np.concatenate([np.arange(nc, n), n + np.arange(nc, n)])
        S = np.linalg.solve(A0[np.ix_(fi, fi)], np.column_stack([A0[np.ix_(fi, ci)], r0[fi]]))
        A, r = A0[np.ix_(ci, ci)] - A0[np.ix_(ci, fi)] @ S[:, :-1], r0[ci] - A0[np.ix_(ci, fi)] @ S[:, -1]
        x0 = guess[:, :nc].ravel()
    else:
        A, r, x0 = A0, r0, guess.ravel()
    close(np.ravel(got["x0"]), x0, "starting point", 1e-12)
    x = rng.normal(size=len(r))
    val = got["fun"](x, *got["args"])
    # normals of the contact facets from the geometry (bottom and right side of the unit square)
    cb = np.array(m.contact_boundary)
    nr = np.array([[0.0, -1.0] if np.all(m.nodes[f][:, 1] == 0) else [1.0, 0.0] for f in cb])
    dt = 0.25 if dyn else 0
    u, v = sv.u_vector, sv.v_vector
    one, zero = (lambda *_: 1.0), (lambda *_: 0.0)
    data = dict(method=method, dynamic=dyn, x=x.tolist())
    if method == "direct":
        want = A @ x - r + forces(x, x, m.nodes, cb, nr, np.zeros(2 * n), 0.0, Law.subderivative_normal_direction, one, zero, one, 2, 2)
        close(val, want, "residual of the direct solver", 1e-8, data=data)
    else:
        want = energy(x, v, m.nodes, cb, nr, A, r, u, dt, Law.potential_normal_direction, Law.normal_bound, Law.potential_tangential_direction, Law.tangential_bound, 2, 2)
        close(np.ravel(val)[0], want, "energy minimised by the solver", 1e-8, data=data)
    return f"{method} dynamic={dyn}"


@case(12, 100)
def poisson_energy(rng, i):
    """scalar problems: the sample is the value itself"""
    pts, cb, nr = system(rng, 2, 0)
    n = len(pts)
    jn = lambda v, d, t: 1.5 * v * v + d
    m, N = reduced(rng, n, 1)
    A, r = rng.normal(size=(N, N)), rng.normal(size=N)
    x, old, u = rng.normal(size=N), rng.normal(size=n), rng.normal(size=n)
    f = make_cost_functional(jn, variable_dimension=1, problem_dimension=1)
    got = float(np.ravel(f(x, old, pts, cb, nr, A, r, u, np.eye(n), 0.5))[0])
    one, zero = (lambda *_: 1.0), (lambda *_: 0.0)
    want = energy(x, old, pts, cb, nr, A, r, u, 0.5, jn, one, zero, one, 1, 1)
    close(got, want, "scalar energy", 1e-9, data=dict(cb=cb.tolist(), nodes=pts.tolist()))
    return f"{len(cb)} facets {m}/{n}"
