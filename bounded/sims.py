"""Simulations of every problem type with random data, an exact stand-in for the iterative minimiser, and an independent time loop."""
import contextlib

from bounded.lib import *
import conmech.scenarios.problems as pr
import conmech.simulations.problem_solver as ps
from conmech.solvers.optimization.optimization import Optimization

KINDS = ("static", "poisson", "quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo_q", "piezo_d")
METHODS = ("schur", "global")


@contextlib.contextmanager
def exact_minimiser():
    """without a contact law the minimiser's task is a linear system: solve it exactly; yields the log of what the solvers were given"""
    old, log = Optimization._solve_impl, []

    def impl(self, initial_guess, variable_old=None, displacement=None, **kw):
        log.append((np.array(variable_old, dtype=float).ravel(), np.array(displacement, dtype=float).ravel(), kw))
        x = np.linalg.solve(np.asarray(self.lhs), np.asarray(self.rhs).ravel())
        size = np.asarray(initial_guess).size
        out = np.zeros(size)
        out[: len(x)] = x
        return out
    Optimization._solve_impl = impl
    try:
        yield log
    finally:
        Optimization._solve_impl = old


class Sim:
    pass


def make(rng, kind, method=None, law=None, law2=None, mesh=None, dirichlet=True, dt=None, special=None):
    """a solver, its solve() arguments and all data needed to repeat the computation independently"""
    S = Sim()
    S.kind, S.method = kind, method or METHODS[int(rng.integers(2))]
    if mesh is None:
        while True:
            pts, el = random_mesh(rng, 2, m=int(rng.integers(6, 11)), drop=False)
            from scipy.spatial import ConvexHull
            order = np.sort(pts[ConvexHull(pts).vertices, 1])
            a, b = order[0] + 1e-9, order[-2] - 1e-9
            if a < b and len(np.unique(el)) == len(pts):
                break
        S.pts, S.el = pts, el
        descr = Raw(pts, el)
        bd = BoundariesDescription(contact=lambda x: x[1] <= a, **(dict(dirichlet=lambda x: x[1] >= b) if dirichlet else {}),
                                   **(dict(piezo_dirichlet=(lambda x: x[1] >= b, lambda x: np.zeros(len(x)))) if kind.startswith("piezo") else {}))
    else:
        descr, bd = mesh
    S.descr, S.bd = descr, bd
    k = 1 if kind in ("wave", "poisson") else 2
    S.k = k
    c = rng.normal(size=(6, max(k, 1)))
    S.inner = lambda x, t=None: c[0] * (1 + (t or 0)) + c[1] * x[0] * np.cos(3 * (t or 0))
    S.outer = lambda x, t=None: c[2] * (1 - 2 * (t or 0)) + c[3] * x[1]
    S.dt = dt or float(rng.choice([0.1, 0.25, 0.07]))
    S.mu, S.la, S.th, S.ze = [float(v) for v in rng.uniform(0.5, 3, 4)]
    zero = set()
    if special is not None:
        # no loads, steps of any size, soft and stiff materials, zero initial values
        w = special % 6
        if w in (0, 3):
            S.inner = (lambda x, t=None: 0 * c[0])
        if w in (1, 3):
            S.outer = (lambda x, t=None: 0 * c[0])
        S.dt = dt or float(rng.choice([1e-4, 2.0, 1e-2, 0.1, 50.0]))
        if w >= 4:
            S.mu, S.la, S.th, S.ze = [float(10.0 ** rng.uniform(-2, 2)) for _ in range(4)]
        zero = {nm for nm in "uvw" if rng.random() < 0.5}
    q = rng.uniform(0.1, 0.6, (2, 2, 2))
    S.relaxation = lambda t: q * np.exp(-2 * t) + 0.1
    S.te, S.tc = rng.uniform(-1, 1, (2, 2)), np.eye(2) + 0.2 * rng.uniform(-1, 1, (2, 2))
    S.pz, S.pm = rng.uniform(-1, 1, (2, 2, 2)), np.eye(2) + 0.2 * rng.uniform(-1, 1, (2, 2))
    S.prop = float(rng.uniform(0.5, 2))
    base, cls = {
        "static": (pr.StaticDisplacementProblem, ps.StaticSolver), "poisson": (pr.PoissonProblem, ps.PoissonSolver),
        "quasistatic": (pr.QuasistaticDisplacementProblem, ps.TimeDependentSolver), "dynamic": (pr.DynamicDisplacementProblem, ps.TimeDependentSolver),
        "relaxation": (pr.RelaxationQuasistaticProblem, ps.QuasistaticRelaxation), "wave": (pr.WaveProblem, ps.WaveSolver),
        "temperature": (pr.TemperatureDynamicProblem, ps.TemperatureTimeDependentSolver),
        "piezo_q": (pr.PiezoelectricQuasistaticProblem, ps.PiezoelectricTimeDependentSolver),
        "piezo_d": (pr.PiezoelectricDynamicProblem, ps.PiezoelectricTimeDependentSolver)}[kind]
    at = dict(inner=S.inner, outer=S.outer)
    if kind == "poisson":
        at.update(internal_temperature=S.inner, outer_temperature=S.outer)
    elif kind == "wave":
        at.update(propagation=S.prop, time_step=S.dt)
    else:
        at.update(mu_coef=S.mu, la_coef=S.la, contact_law=law)
        if kind != "static":
            at.update(th_coef=S.th, ze_coef=S.ze, time_step=S.dt)
        if kind == "relaxation":
            at.update(relaxation=S.relaxation)
        if kind == "temperature":
            at.update(contact_law_2=law2, thermal_expansion=S.te, thermal_conductivity=S.tc)
        if kind.startswith("piezo"):
            at.update(contact_law_2=law2, piezoelectricity=S.pz, permittivity=S.pm)
    S.problem = problem(base, descr, bd, **at)
    S.cls = cls
    S.new = lambda: cls(S.problem, S.method)
    i0 = rng.normal(size=(4, 2)) * 0.3
    S.u0 = lambda x: x * i0[0] + i0[1]
    S.v0 = lambda x: x[:, ::-1] * i0[2] + i0[3]
    S.w0 = lambda x: 0.2 * x[:, 0] - 0.1 * x[:, 1] + 0.3
    if kind == "wave":      # one component in two-component storage
        S.u0 = lambda x: np.stack([x[:, 0] * i0[0][0] + i0[1][0], 0 * x[:, 0]], axis=1)
        S.v0 = lambda x: np.stack([x[:, 1] * i0[2][0] + i0[3][0], 0 * x[:, 0]], axis=1)
    if "u" in zero:
        S.u0 = lambda x: np.zeros_like(x)
    if "v" in zero:
        S.v0 = lambda x: np.zeros_like(x)
    if "w" in zero:
        S.w0 = lambda x: np.zeros(len(x))
    S.args = {"static": dict(initial_displacement=S.u0), "poisson": {},
              "relaxation": dict(initial_displacement=S.u0, initial_absement=S.v0),
              "temperature": dict(initial_displacement=S.u0, initial_velocity=S.v0, initial_temperature=S.w0),
              "piezo_q": dict(initial_displacement=S.u0, initial_velocity=S.v0, initial_electric_potential=S.w0)}.get(
                  kind, dict(initial_displacement=S.u0, initial_velocity=S.v0))
    if kind == "piezo_d":
        S.args = dict(initial_displacement=S.u0, initial_velocity=S.v0, initial_electric_potential=S.w0)
    return S


def fields(state):
    out = dict(displacement=np.array(state.displacement), velocity=np.array(state.velocity), absement=np.array(state.absement),
               displaced_nodes=np.array(state.displaced_nodes), time=float(state.time))
    for a in ("temperature", "electric_potential"):
        if getattr(state, a, None) is not None:
            out[a] = np.array(getattr(state, a)).ravel()
    return out


def operators(S, mesh):
    """dense operators from first principles for the given (renumbered) mesh"""
    nodes, el = mesh.nodes, mesh.elements
    n = len(nodes)
    _, _, U, V, W, _ = p1_matrices(nodes, el)
    O = Sim()
    O.n = n
    rho = 0.1 if S.kind.startswith("piezo") else 1.0
    O.M1 = rho * U
    O.M = rho * np.kron(np.eye(2), U)
    if S.kind not in ("wave", "poisson"):
        O.E = hooke(nodes, el, S.mu, S.la)
        O.C = hooke(nodes, el, S.th, S.ze) if S.kind not in ("static", "relaxation") else None
    O.L = (S.prop ** 2 if S.kind == "wave" else 1.0) * (W[0, 0] + W[1, 1])
    O.V, O.W = V, W
    return O


def load(S, mesh, t):
    nodes, d = mesh.nodes, 2
    n = len(nodes)
    r = np.zeros((n, S.k))
    f = np.array([S.inner(x, t) for x in nodes])
    for e in mesh.elements:
        v = volume(nodes[e])
        for a in e:
            for b in e:
                if a != b:
                    r[a] += v / (d + 1) / d * f[b]
    for e in mesh.neumann_boundary:
        m = facet_measure(nodes[e])
        for a in e:
            r[a] += m / d * S.outer(nodes[a], t)
    return stack(r)


def prescribed(mesh, k, name="dirichlet"):
    """homogeneous Dirichlet unknowns"""
    if name not in mesh.boundaries.boundaries:
        return np.array([], dtype=int)
    idx = np.arange(mesh.nodes_count)[mesh.boundaries.boundaries[name].node_indices]
    return np.concatenate([c * mesh.nodes_count + idx for c in range(k)]).astype(int)


def linear(A, r, fixed):
    A, r = A.copy(), r.copy()
    A[fixed, :] = 0
    A[:, fixed] = 0
    A[fixed, fixed] = 1
    r[fixed] = 0
    return np.linalg.solve(A, r)


def relaxation_matrix(S, O, t):
    R, W = S.relaxation(t), O.W
    return np.block([[R[0][0][0] * W[0, 0] + R[0][1][1] * W[1, 1], R[0][1][0] * W[1, 0] + R[0][0][1] * W[0, 1]],
                     [R[1][1][0] * W[1, 0] + R[1][0][1] * W[0, 1], R[1][0][0] * W[0, 0] + R[1][1][1] * W[1, 1]]])


def trajectory(S, mesh, n_steps, start=None):
    """the time loop from first principles: list of dicts of fields for steps 0..n_steps"""
    O = operators(S, mesh)
    n, nodes, dt = O.n, mesh.nodes, S.dt
    fix2, fix1 = prescribed(mesh, 2), prescribed(mesh, 1)
    fixp = prescribed(mesh, 1, "piezo_dirichlet")
    z = np.zeros(2 * n)
    X = np.hstack([sum(S.te[a, l] * O.V[l] for l in range(2)) for a in range(2)])
    blk = lambda a: S.pz[a, 0, 0] * O.W[0, 0] + S.pz[a, 1, 1] * O.W[1, 1] + S.pz[a, 1, 0] * O.W[1, 0] + S.pz[a, 0, 1] * O.W[0, 1]
    P = np.hstack([blk(0), blk(1)])
    u = stack(S.u0(nodes)) if S.kind != "poisson" else z.copy()
    v = stack(S.v0(nodes)) if S.kind not in ("static", "poisson", "relaxation") else z.copy()
    b = stack(S.v0(nodes)) if S.kind == "relaxation" else z.copy()
    w = S.w0(nodes) if S.kind in ("temperature", "piezo_q", "piezo_d") else np.zeros(n)
    t = 0.0
    if start is not None:
        u, v, t = stack(start.displacement), stack(start.velocity), start.time
    out = []

    def put():
        un = lambda a: a.reshape(2, -1).T.copy()
        out.append(dict(displacement=un(u), velocity=un(v), absement=un(b), displaced_nodes=nodes + un(u), time=t, w=w.copy()))
    put()
    for _ in range(n_steps):
        f = load(S, mesh, t) if S.kind not in ("poisson",) else None
        tn = t + dt
        if S.kind == "quasistatic":
            v = linear(O.C + dt * O.E, f - O.E @ u, fix2)
            u = u + dt * v
        elif S.kind == "dynamic":
            v = linear(O.M / dt + O.C + dt * O.E, f + O.M @ v / dt - O.E @ u, fix2)
            u = u + dt * v
        elif S.kind == "relaxation":
            R = relaxation_matrix(S, O, t)
            u = linear(O.E + dt * R, f - R @ b, fix2)
            b = b + dt * u
        elif S.kind == "wave":
            x = linear(O.M1 / dt + dt * O.L, f + O.M1 @ v[:n] / dt - O.L @ u[:n], fix1)
            v = np.concatenate([x, np.zeros(n)])
            u = u + dt * v
        else:
            f = load(S, mesh, tn)           # the coupled step uses the loads at its end
            w_old, u_old, v_old, w_it = w.copy(), u.copy(), v.copy(), w.copy()
            last_v, last_w = None, None
            prev_v, prev_w = (stack(out[-1]["velocity"]) if False else None), w.copy()
            for it in range(10):
                if S.kind == "temperature":
                    vn = linear(O.M / dt + O.C + dt * O.E, f + O.M @ v_old / dt - O.E @ u_old + X.T @ w_it, fix2)
                    wn = linear(O.M1 / dt + np.einsum("kl,klij->ij", S.tc, O.W), O.M1 @ w_old / dt - X @ vn, fix1)
                else:
                    A, r = (O.C + dt * O.E, f - O.E @ u_old) if S.kind == "piezo_q" else (O.M / dt + O.C + dt * O.E, f + O.M @ v_old / dt - O.E @ u_old)
                    vn = linear(A, r - P.T @ w_it, fix2)
                    wn = linear(np.einsum("kl,klij->ij", S.pm, O.W), P @ (u_old + dt * vn), fixp)
                done = last_v is not None and it >= 4 and np.sqrt(np.sum((vn - last_v) ** 2) + np.sum((wn - last_w) ** 2)) <= 1e-3
                last_v, last_w, w_it = vn, wn, wn
                if done:
                    break
            v, w = last_v, last_w
            u = u_old + dt * v
        t = tn
        put()
    return out
