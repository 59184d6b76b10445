"""Random systems with prescribed nodes given as one block or any sorted sets, several numbered conditions, in one, two and
three components; elimination and final overwrite against a row-by-row oracle, and full solutions by every method."""
from bounded.lib import *
from conmech.dynamics.statement import Statement, Variables
from conmech.mesh.boundaries import Boundaries
from conmech.mesh.boundary import Boundary
import conmech.struct.stiffness_matrix as sm
from conmech.solvers.solver import Solver


def eliminate(A, r, dofs):
    """oracle: substitute the prescribed values"""
    B, s = A.copy(), r.copy()
    fixed = dict(dofs)
    for i in range(len(r)):
        if i in fixed:
            B[i] = 0
            B[i, i] = 1
            s[i] = fixed[i]
        else:
            for j, v in fixed.items():
                s[i] -= A[i, j] * v
                B[i, j] = 0
    return B, s


def values(rng, m, kind=0):
    """prescribed values: ordinary, zero, tiny, huge, all equal, whole numbers"""
    x = rng.normal(size=m)
    return [x, np.zeros(m), x * 1e-9, x * 1e8, np.full(m, 1.5), np.round(x), np.where(rng.random(m) < 0.5, 0.0, x)][kind % 7]


def boundaries(rng, n, name="dirichlet", numbered=0, i=0):
    """node sets are disjoint (overlapping conditions have to agree)"""
    d = {}
    free = list(range(n))
    nd = int(rng.integers(0, max(1, n // 2)))
    # the plain condition is a block at the end
    cond = {}
    empty = np.zeros((0, 2), dtype=np.int64)
    vals = values(rng, nd, i // 4)
    if name == "dirichlet" or i % 2:
        cond[name] = (np.arange(n - nd, n), vals, slice(n - nd, n))
        free = free[: n - nd]
    for k in range(numbered):
        if not free:
            break
        m = int(rng.integers(1, max(2, len(free) // 2 + 1)))
        ids = np.sort(rng.choice(free, size=min(m, len(free)), replace=False))
        free = [x for x in free if x not in ids]
        if len(ids):
            key = f"{name}_{k + (i % 3)}" if i % 5 else f"{name}_{3 * k + 2}"
            cond[key] = (ids, values(rng, len(ids), i // 4 + (k if i % 3 else 0)), ids)
    return cond


def fake_body(rng, n, k, i, name):
    bs = object.__new__(Boundaries)
    cond = boundaries(rng, n, name, int(rng.integers(0, 4)), i)
    bs.boundaries = {}
    empty = np.zeros((0, 2), dtype=np.int64)
    for key in (list(cond) if i % 2 else list(cond)[::-1]):
        ids, vals, idx = cond[key]
        bs.boundaries[key] = Boundary(surfaces=empty, node_indices=idx, node_count=len(ids), node_condition=vals.copy())
    # unrelated boundaries with similar names have no effect
    bs.boundaries["contact"] = Boundary(surfaces=empty, node_indices=slice(0, 0), node_count=0)
    if name == "dirichlet":
        bs.boundaries["piezo_dirichlet_0"] = Boundary(surfaces=empty, node_indices=np.array([0]), node_count=1, node_condition=np.array([77.0]))
    else:
        bs.boundaries["dirichlet"] = Boundary(surfaces=empty, node_indices=slice(n - 1, n), node_count=1, node_condition=np.array([77.0]))
        bs.boundaries["dirichlet_0"] = Boundary(surfaces=empty, node_indices=np.array([0]), node_count=1, node_condition=np.array([77.0]))
    body = Stub()
    body.mesh = Stub()
    body.mesh.boundaries, body.mesh.nodes_count, body.mesh.dimension = bs, n, max(k, 2)
    body.mesh.contact_nodes_count = 0
    body.dynamics = Stub()
    body.dynamics.elasticity = None
    dofs = [(c * n + int(node), float(v)) for ids, vals, _ in cond.values() for c in range(k) for node, v in zip(ids, vals)]
    return body, dofs, cond


@case(300, 3000)
def elimination(rng, i):
    k = 1 + i % 3
    n = int(rng.integers(2, 9)) if i % 25 != 24 else 60
    N = k * n
    name = "piezo_dirichlet" if i % 4 == 3 else "dirichlet"
    body, dofs, cond = fake_body(rng, n, k, i, name)
    A, r = rng.normal(size=(N, N)), rng.normal(size=N)
    if i % 4 == 1:
        A = A + A.T
    s_ = 1.0 if i % 3 else 10.0 ** rng.uniform(-6, 6)
    A, r = A * s_, [r, r * 1e-8, np.zeros(N), r * 1e5, r][i % 5]

    class S(Statement):
        def update_left_hand_side(self, var):
            self.left_hand_side = {1: sm.SM1, 2: sm.SM2, 3: sm.SM3}[k](A.copy())

        def update_right_hand_side(self, var):
            self.right_hand_side = r.copy()
    s = S(body, (k, k))
    s.dirichlet_cond_name = name
    s.update(Variables(time=0.0, time_step=1.0))
    B, q = eliminate(A, r, dofs)
    data = dict(n=n, k=k, cond={a: (list(map(int, b[0])), b[1].tolist()) for a, b in cond.items()}, A=A.tolist(), r=r.tolist())
    close(s.left_hand_side.data, B, "system matrix", 1e-9, scale=max(biggest(A), 1.0 if dofs else 0.0), data=data)
    close(s.right_hand_side, q, "system load", 1e-9, scale=max([biggest(r, q)] + [abs(v) * biggest(A) for _, v in dofs]), data=data)
    for row in range(N):
        # every row on its own scale
        close(s.left_hand_side.data[row], B[row], f"row {row} of the system matrix", 1e-9, scale=biggest(B[row]), data=data)
    for a, b in cond.items():
        need(np.array_equal(body.mesh.boundaries.boundaries[a].node_condition, b[1]), "prescribed values changed", data)

    x = rng.normal(size=N)
    class So(Solver):
        def _solve_impl(self, initial_guess, *, variable_old, displacement, **kw):
            return x.copy()
    got = So(s, body, 1.0).solve(np.zeros(N))
    want = x.copy()
    for j, v in dofs:
        want[j] = v
    close(got, want, "returned vector", 1e-14, scale=biggest(want), data=data)
    need(all(got[j] == v for j, v in dofs), "prescribed values are exact", data)
    return f"{k} components, {n} nodes, {len(dofs)} prescribed, {name}"


@case(40, 300)
def by_description(rng, i):
    """conditions given by indicators on a real mesh: values at every prescribed node, untouched elsewhere, every method"""
    from conmech.scenarios.problems import PoissonProblem, StaticDisplacementProblem
    from conmech.simulations.problem_solver import PoissonSolver, StaticSolver
    descr = CrossMeshDescription(initial_position=None, max_element_perimeter=[0.5, 0.35][i % 2], scale=[1, 1])
    a, b = rng.normal(size=2), rng.normal(size=2)
    g = lambda x: np.array([1.0 + p @ a for p in np.atleast_2d(x)])
    h = lambda x: np.array([-2.0 + p @ b for p in np.atleast_2d(x)])
    kw = dict(dirichlet=(lambda x: x[0] == 0, g))
    two = i % 4 < 2
    if two:
        kw["dirichlet_0" if i % 3 else "dirichlet_2"] = (lambda x: x[0] == 1, h)
    bd = BoundariesDescription(contact=lambda x: False, **kw)
    method = ["direct", "schur", "global"][i % 3]
    if i % 2:
        # the reduced method needs contact nodes
        bd = BoundariesDescription(contact=lambda x: x[1] == 0, **kw)
    elif method == "schur":
        method = "direct"
    if i % 8 < 4:
        p = problem(PoissonProblem, descr, bd, internal_temperature=lambda x, t=None: np.array([1.5]), outer_temperature=lambda x, t=None: np.array([0.3]))
        s = PoissonSolver(p, method)
        out = s.solve().temperature
        k = 1
        A0 = s.body.dynamics.poisson_operator.data
        F = s.body.dynamics.temperature.integrate(time=0)
    else:
        p = problem(StaticDisplacementProblem, descr, bd, inner=lambda x, t=None: np.array([0.2, -0.1]), outer=lambda x, t=None: np.array([0.1, 0.1]),
                    mu_coef=2.0, la_coef=3.0, contact_law=None)
        s = StaticSolver(p, method)
        out = stack(s.solve(initial_displacement=lambda x: np.zeros_like(x)).displacement)
        k = 2
        A0 = s.body.dynamics.elasticity.data
        F = s.body.dynamics.force.integrate(time=0)
    m = s.body.mesh
    n = m.nodes_count
    fix = {}
    for j, x in enumerate(m.nodes):
        for c in range(k):
            if x[0] == 0:
                fix[c * n + j] = g(x)[0]
            if two and x[0] == 1:
                fix[c * n + j] = h(x)[0]
    B, q = eliminate(np.asarray(A0), F, list(fix.items()))
    want = np.linalg.solve(B, q)
    for j, v in fix.items():
        close(out[j], v, f"value of prescribed unknown {j}", 1e-12, data=dict(method=method))
    close(out, want, "solution", 5e-3, data=dict(method=method, k=k))
    return f"{method} k={k} two={two}"
