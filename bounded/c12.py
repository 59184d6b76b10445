"""Random meshes and boundary parts, sources depending on position and time, and random histories of queries, changed sources,
cleared caches, saved states and results modified by the caller; against sums over elements and facets from first principles."""
import os
import pickle
import tempfile

from bounded.lib import *
from conmech.properties.body_properties import ElasticProperties, ViscoelasticTemperatureProperties
from conmech.state.state import State
from conmech.simulations.problem_solver import StaticSolver
from conmech.scenarios.problems import StaticDisplacementProblem


def nodal_volume_matrix(nodes, elements):
    n, d = nodes.shape
    N = np.zeros((n, n))
    for e in elements:
        v = volume(nodes[e])
        for a in e:
            for b in e:
                if a != b:
                    N[a, b] += v / (d + 1) / d
    return N


def expected(mesh, inner, outer, t):
    nodes, d = mesh.nodes, mesh.dimension
    fi = np.array([inner(x, t) for x in nodes])
    r = nodal_volume_matrix(nodes, mesh.elements) @ fi
    for f in mesh.neumann_boundary:
        m = facet_measure(nodes[f])
        for k in f:
            r[k] += m / d * np.asarray(outer(nodes[k], t))
    return stack(r)


def source(rng, k):
    a, b, c = rng.normal(size=k), rng.normal(size=k), rng.normal(size=4)
    kind = int(rng.integers(9))
    if kind == 4:
        return lambda x, t=None: 0 * a
    if kind == 5:
        return lambda x, t=None: 1e-9 * a * (1 + t)
    if kind == 6:
        return lambda x, t=None: 1e7 * a + b * t
    if kind == 7:           # one spot, one component, at one moment
        return lambda x, t=None: np.where(np.arange(k) == 0, 1.0, 0.0) * (x[0] > c[1]) * (t > c[2])
    if kind == 8:           # changes fast
        return lambda x, t=None: a * np.sin(1e8 * (t + c[0])) + b * (t > c[2])
    if kind == 0:
        return lambda x, t=None: a
    if kind == 1:
        return lambda x, t=None: a * (1 + t) + b * x[0]
    if kind == 2:
        return lambda x, t=None: a * np.sin(c[0] * t + x[1]) + b * (x[0] > c[1])
    return lambda x, t=None: a * t * t + b * x[0] * x[1]


def setup(rng, i, k=None):
    d = 2 + i % 2
    pts, el = random_mesh(rng, d, lattice=i % 5 == 3)
    if i % 4 == 1:
        pts = pts * 10.0 ** float(rng.integers(-5, 4))
    bd = random_boundaries(rng, pts, p_none=0.3)
    mesh = Mesh(Raw(pts, el), bd)
    temp = i % 3 == 1
    props = ViscoelasticTemperatureProperties(mass_density=1.0, mu=1.0, lambda_=1.0, theta=1.0, zeta=1.0, thermal_expansion=np.eye(d),
                                              thermal_conductivity=np.eye(d)) if temp else ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0)
    body = make_body(props, mesh)
    return mesh, body


@case(120, 1200)
def load(rng, i):
    mesh, body = setup(rng, i)
    d, n = mesh.dimension, mesh.nodes_count
    k = 1 if i % 7 == 2 else d
    f = body.dynamics.temperature if i % 7 == 2 else body.dynamics.force
    fi, fo = source(rng, k), source(rng, k)
    f.inner.source, f.outer.source = fi, fo
    before = mesh.nodes.copy(), mesh.neumann_boundary.copy(), np.asarray(body.dynamics.volume_at_nodes).copy()
    t = float(rng.choice([0.0, rng.uniform(0, 5), -rng.uniform(0, 2), 1e-12, 1e5, -1e4]))
    want = expected(mesh, fi, fo, t)
    data = (mesh.nodes.tolist(), mesh.elements.tolist(), t)
    close(f.integrate(t), want, "load vector", scale=max(np.abs(want).max(), 1e-300), data=data)
    need(np.array_equal(before[0], mesh.nodes) and np.array_equal(before[1], mesh.neumann_boundary)
         and np.array_equal(before[2], np.asarray(body.dynamics.volume_at_nodes)), "integration changed the mesh or the body", data)
    # constant sources: total force
    a, b = rng.normal(size=k), rng.normal(size=k)
    f.inner.source, f.outer.source = (lambda x, t=None: a), (lambda x, t=None: b)
    got = np.asarray(f.integrate(t)).reshape(k, n)
    vol = sum(volume(mesh.nodes[e]) for e in mesh.elements)
    area = sum(facet_measure(mesh.nodes[e]) for e in mesh.neumann_boundary)
    close(got.sum(axis=1), vol * a + area * b, "total force", 1e-9, scale=vol * np.abs(a).max() + area * np.abs(b).max(), data=data)
    f.inner.source = lambda x, t=None: 0 * a
    got = np.asarray(f.integrate(t)).reshape(k, n)
    off = np.setdiff1d(np.arange(n), np.unique(mesh.neumann_boundary))
    need(not np.any(got[:, off]), "traction at a node on no Neumann facet", data)
    return f"d={d} k={k} n={n} neumann={len(mesh.neumann_boundary)}"


@case(80, 1000)
def history(rng, i):
    """operations in random order; every answer as if asked for the first time"""
    mesh, body = setup(rng, i)
    d = mesh.dimension
    f = body.dynamics.force
    cur = [source(rng, d), source(rng, d)]
    f.inner.source, f.outer.source = cur
    times = [0.0] + [float(x) for x in rng.uniform(0, 3, 3)]
    if i % 2:               # close to each other, negative, large
        times += [times[1] + 1e-9, times[1] * (1 + 1e-15) + 1e-16, -times[1], 1e4 + times[2], 1e4 + times[2] + 1e-6]
    ops = []
    for step in range(14):
        op = int(rng.integers(8))
        ops.append(op)
        if op == 0:
            cur[0] = source(rng, d)
            f.inner.source = cur[0]
        elif op == 1:
            cur[1] = source(rng, d)
            f.outer.source = cur[1]
        elif op == 2:
            f.clear()
        elif op == 3:
            f.integrate(float(rng.choice(times)))[:] = 7.5
        elif op == 4:
            state = State(body)
            with tempfile.TemporaryDirectory() as tmp:
                try:
                    state.save(os.path.join(tmp, "s"))
                except (pickle.PicklingError, AttributeError):
                    pass        # local functions inside the description cannot be pickled
        elif op == 5:
            other = Body(body.properties, mesh)
            Dynamics(other)
            other.dynamics.force.inner.source = source(rng, d)
            other.dynamics.force.outer.source = source(rng, d)
            other.dynamics.force.integrate(float(rng.choice(times)))
        elif op == 6:
            State(body).copy()
        else:
            body.dynamics.temperature.inner.source = source(rng, d)
            body.dynamics.temperature.outer.source = source(rng, d)
            body.dynamics.temperature.integrate(float(rng.choice(times)))
        need(f.inner.source is cur[0] and f.outer.source is cur[1], "the sources were replaced", ops)
        t = float(rng.choice(times))
        ops.append(t)
        want = expected(mesh, cur[0], cur[1], t)
        close(f.integrate(t), want, "load vector after a history of operations", scale=max(np.abs(want).max(), 1e-300),
              data=(ops, mesh.nodes.tolist(), mesh.elements.tolist()))
    return f"d={d} ops={ops}"[:200]


@case(16, 100)
def through_the_solver(rng, i):
    """the sources of the problem class are those that reach the system, for two problems on the same process"""
    d = 2
    out = []
    for _ in range(2):
        pts, el = random_mesh(rng, d)
        fi, fo = source(rng, d), source(rng, d)
        p = problem(StaticDisplacementProblem, Raw(pts, el), random_boundaries(rng, pts, contact=False), fi, fo,
                    contact_law=None, mu_coef=1.0, la_coef=1.0)
        solver = StaticSolver(p, "global")
        out.append((solver, fi, fo))
    for solver, fi, fo in out:
        body = solver.body
        for t in (0.0, 1.5, 0.0):
            want = expected(body.mesh, fi, fo, t)
            close(body.dynamics.force.integrate(t), want, "load of the problem", scale=max(np.abs(want).max(), 1e-300))
    return "two problems"


@case(16, 100)
def left_out(rng, i):
    """a problem that leaves its loads out is unloaded"""
    from bounded.sims import make, KINDS
    import conmech.scenarios.problems as pr
    kind = KINDS[i % len(KINDS)]
    S = make(rng, kind)
    base = next(c for c in type(S.problem).__mro__ if c.__module__ == pr.__name__)
    names = ("internal_temperature", "outer_temperature") if kind == "poisson" else ("inner_forces", "outer_forces")
    for q in names:
        setattr(type(S.problem), q, staticmethod(getattr(base, q)))
    body = S.new().body
    F = body.dynamics.temperature if kind == "poisson" else body.dynamics.force
    for t in (0.0, 0.7):
        close(F.integrate(t), np.zeros(S.k * body.mesh.nodes_count), f"load of a {kind} problem without loads", scale=1e-9)
    return kind
