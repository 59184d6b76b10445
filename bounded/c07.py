"""Random systems (1, 2, 3 components, one component in two-component storage) through the real Schur solver classes with the
minimiser replaced by an arbitrary vector; full problems solved by the Schur and by the global method."""
from bounded.lib import *
import conmech.struct.stiffness_matrix as sm
import conmech.solvers.optimization.schur_complement as sc
from conmech.solvers.optimization.optimization import Optimization


def setup(rng, k, driving=False, timed=False, size=1.0, load=None):
    nc, nf = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    n = nc + nf
    N = k * n
    A = {}
    r = {}

    class St:
        dimension_in = dimension_out = k

        def update(self, var):
            t = float(var.time)
            key = t if timed else 0.0
            if key not in A:
                A[key] = size * (rng.normal(size=(N, N)) + N * np.eye(N))
            if t not in r:
                r[t] = rng.normal(size=N) if load is None else state(rng, N, load)
            self.left_hand_side = {1: sm.SM1, 2: sm.SM2, 3: sm.SM3}[k](A[key].copy())
            self.right_hand_side = r[t].copy()
            self.now = (A[key], r[t])

        def find_dirichlet_conditions(self):
            return iter(())
    body = Stub()
    body.mesh = Stub()
    body.mesh.nodes_count, body.mesh.dimension, body.mesh.contact_nodes_count = n, (2 if driving else k), nc
    body.mesh.boundaries = Stub()
    body.mesh.boundaries.boundaries = {}
    body.dynamics = Stub()
    body.dynamics.elasticity = None
    return nc, nf, n, St(), body


def comp(k, n, ids):
    return np.concatenate([c * n + ids for c in range(k)])


@case(120, 1500)
def reduction(rng, i):
    return reduced(rng, i)


@case(168, 1680)
def special(rng, i):
    """systems of any magnitude, loads and contact values zero, one-hot, tiny, huge, constant or sparse"""
    return reduced(rng, i, special=True)


def reduced(rng, i, special=False):
    k = 1 + i % 3
    driving = i % 7 == 6
    if driving:
        k = 1
    name = ["StaticSchurOptimization", "QuasistaticSchurOptimization", "QuasistaticRelaxed", "DynamicSchurOptimization"][(i // 3) % 4]
    nc, nf, n, st, body = setup(rng, k, driving, timed=name == "QuasistaticRelaxed",
                               **(dict(size=10.0 ** (rng.uniform(-4, 4) if i % 2 else rng.uniform(-14, -8)), load=int(rng.integers(8))) if special else {}))
    sv = getattr(sc, name)(st, body, 0.5, None, driving)
    seen = {}
    xc = rng.normal(size=k * nc) if not special else state(rng, k * nc, i // 12)

    def impl(self, guess, **kw):
        seen["guess"] = np.array(guess)
        seen["lhs"], seen["rhs"] = np.array(self.lhs), np.array(self.rhs if np.ndim(self.rhs) == 1 else self.rhs[0])
        return xc.copy()
    old = Optimization._solve_impl
    Optimization._solve_impl = impl
    try:
        for step in range(1 if name.startswith("Static") else 3):
            if step:
                sv.current_time = step * 0.5
                sv.iterate()
            kk = 2 if driving else k
            guess = rng.normal(size=(kk, n)) if kk > 1 else rng.normal(size=n)
            if special and i % 5 == 0:
                guess = np.zeros_like(guess)
            g0 = guess.copy()
            x = sv.solve(guess)
            A, r = st.now
            data = dict(k=k, nc=nc, nf=nf, cls=name, step=step, A=A.tolist(), r=r.tolist())
            need(np.array_equal(guess, g0), "the guess was changed", data)
            need(x.shape == (kk * n,), f"shape {x.shape}", data)
            c, f = comp(k, n, np.arange(nc)), comp(k, n, np.arange(nc, n))
            y = x[: k * n]
            res = A @ y - r
            close(res[f], np.zeros(len(f)), "residual on free unknowns", 1e-8, scale=np.abs(r).max() + np.abs(A).max() * np.abs(y).max(), data=data)
            close(res[c], seen["lhs"] @ xc - seen["rhs"], "residual on contact unknowns", 1e-8, scale=np.abs(r).max() + np.abs(A).max() * np.abs(y).max(), data=data)
            close(y[c], xc, "contact values kept", 1e-12, scale=biggest(xc), data=data)
            close(seen["guess"].ravel(), np.concatenate([np.atleast_2d(g0)[a, :nc] for a in range(k)]), "reduced guess", 1e-12, data=data)
            if driving:
                close(x[n:], np.zeros(n), "second component", 1e-12, data=data)
            S = A[np.ix_(c, c)] - A[np.ix_(c, f)] @ np.linalg.solve(A[np.ix_(f, f)], A[np.ix_(f, c)])
            close(seen["lhs"], S, "reduced matrix belongs to the current system", 1e-8, scale=np.abs(A).max(), data=data)
            close(seen["rhs"], r[c] - A[np.ix_(c, f)] @ np.linalg.solve(A[np.ix_(f, f)], r[f]), "reduced load belongs to the current system", 1e-8, scale=biggest(r), data=data)
    finally:
        Optimization._solve_impl = old
    return f"{name} k={k} nc={nc} nf={nf} driving={driving}"


@case(12, 60)
def full_problems(rng, i):
    """the Schur and the global method find the same solution"""
    from conmech.scenarios.problems import StaticDisplacementProblem, QuasistaticDisplacementProblem, DynamicDisplacementProblem, RelaxationQuasistaticProblem
    from conmech.simulations.problem_solver import StaticSolver, TimeDependentSolver, QuasistaticRelaxation
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law
    kind = i % 4
    descr = CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[1, 1])
    bd = BoundariesDescription(contact=lambda x: x[1] == 0, dirichlet=lambda x: x[0] == 0)
    law = make_slope_contact_law([0.0, 2.0, 30.0][i % 3])
    f = rng.normal(size=2) * 0.3
    com = dict(inner=lambda x, t=None: f * (1 + (t or 0)), outer=lambda x, t=None: np.array([0.1, -0.1]), mu_coef=2.0, la_coef=3.0, contact_law=law)
    vis = dict(com, th_coef=1.5, ze_coef=1.0, time_step=0.1)
    q = rng.uniform(0.1, 0.5, (2, 2, 2))
    res = []
    for m in ("schur", "global"):
        if kind == 0:
            s = StaticSolver(problem(StaticDisplacementProblem, descr, bd, **com), m)
            res.append(s.solve(initial_displacement=lambda x: np.zeros_like(x)).displacement)
        elif kind == 3:
            s = QuasistaticRelaxation(problem(RelaxationQuasistaticProblem, descr, bd, relaxation=lambda t: q * np.exp(-t), **vis), m)
            res.append(s.solve(n_steps=3, initial_absement=lambda x: np.zeros_like(x), initial_displacement=lambda x: np.zeros_like(x))[-1].displacement)
        else:
            base = QuasistaticDisplacementProblem if kind == 1 else DynamicDisplacementProblem
            s = TimeDependentSolver(problem(base, descr, bd, **vis), m)
            res.append(s.solve(n_steps=3, initial_displacement=lambda x: np.zeros_like(x), initial_velocity=lambda x: np.zeros_like(x))[-1].displacement)
    close(res[0], res[1], "schur and global solutions", 2e-2, scale=max(1e-3, np.abs(res[1]).max()), data=dict(kind=kind, f=f.tolist()))
    return f"kind {kind} f={f.round(3)}"
