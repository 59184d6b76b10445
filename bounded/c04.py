"""Random meshes and element densities; stiffness operators after density updates against independent weighted assembly."""
from bounded.lib import *
from conmech.properties.body_properties import (
    ViscoelasticProperties, ElasticRelaxationProperties, ViscoelasticTemperatureProperties, MembraneProperties)


def D(op):
    return np.asarray(op.data)


def weighted(nodes, elements, w):
    _, _, _, _, _, loc = p1_matrices(nodes, elements)
    n, d = nodes.shape
    W = np.zeros((d, d, n, n))
    for e, el in enumerate(elements):
        for a, i in enumerate(el):
            for b, j in enumerate(el):
                W[:, :, i, j] += w[e] * loc[:, :, e, a, b]
    return W


@case(60, 500)
def density(rng, i):
    mesh = random_body_mesh(rng, 2)
    mu, la, th, ze, rho = rng.uniform(0.2, 5, 5)
    q = rng.uniform(-1, 2, (2, 2, 2))
    kinds = [lambda: ViscoelasticProperties(rho, mu, la, th, ze), lambda: ElasticRelaxationProperties(mass_density=rho, mu=mu, lambda_=la, relaxation=lambda t: q),
             lambda: MembraneProperties(rho, th), lambda: ViscoelasticTemperatureProperties(mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze, thermal_expansion=q[0], thermal_conductivity=q[1])]
    kind = i % 4
    body = make_body(kinds[kind](), mesh)
    dyn = body.dynamics
    ne = len(mesh.elements)
    v, nodal, U, V, W1, _ = p1_matrices(mesh.nodes, mesh.elements)
    data0 = dict(nodes=mesh.nodes.tolist(), elements=mesh.elements.tolist(), mu=mu, la=la)
    seq = [None, rng.uniform(0, 3, ne), np.ones(ne), (rng.random(ne) < 0.5).astype(float) * rng.uniform(0.5, 2), None, rng.uniform(0, 3, ne)]
    if i % 2:
        # any magnitude, all tiny, exact zeros with tiny ones, one value everywhere
        seq += [10.0 ** rng.uniform(-6, 3, ne), np.full(ne, 1e-9), rng.uniform(0.5, 2, ne) * 1e-4 * (rng.random(ne) < 0.7), np.full(ne, float(rng.choice([0.5, 2.0, 1e-3]))),
                np.where(rng.random(ne) < 0.5, 1e-9, 1.0), np.zeros(ne), np.full(ne, 1.0 + 1e-7), rng.integers(0, 3, ne).astype(float)]
    if ne > 1:
        one = np.zeros(ne)
        one[int(rng.integers(ne))] = 2.5
        seq.insert(2, one)
    for w in seq:
        before = None if w is None else w.copy()
        if w is None:
            dyn.reinitialize_matrices()
        else:
            dyn.reinitialize_matrices(w)
            need(np.array_equal(before, w), "the densities were changed", data0)
        ww = np.ones(ne) if w is None else w
        data = dict(data0, density=ww.tolist())
        with relative(floor=1e-12 if np.any(ww) else 1.0):
            W = weighted(mesh.nodes, mesh.elements, ww)
            t = 1e-8
            if kind != 2:
                close(D(dyn.elasticity), hooke(mesh.nodes, mesh.elements, mu, la, ww), "weighted elasticity", t, data=data)
            if kind in (0, 3):
                close(D(dyn.viscosity), hooke(mesh.nodes, mesh.elements, th, ze, ww), "weighted viscosity", t, data=data)
            if kind == 1:
                want = np.block([[q[0][0][0] * W[0, 0] + q[0][1][1] * W[1, 1], q[0][1][0] * W[1, 0] + q[0][0][1] * W[0, 1]],
                                 [q[1][1][0] * W[1, 0] + q[1][0][1] * W[0, 1], q[1][0][0] * W[0, 0] + q[1][1][1] * W[1, 1]]])
                close(D(dyn.relaxation(0.0)), want, "weighted relaxation", t, data=data)
            if kind == 2:
                close(D(dyn.poisson_operator), th ** 2 * (W[0, 0] + W[1, 1]), "weighted membrane operator", t, data=data)
            if kind == 3:
                close(D(dyn.thermal_conductivity), np.einsum("kl,klij->ij", q[1], W), "weighted conductivity", t, data=data)
                close(D(dyn.thermal_expansion), np.hstack([q[0][k, 0] * V[0] + q[0][k, 1] * V[1] for k in range(2)]), "thermal expansion is unweighted", t, data=data)
            close(D(dyn.acceleration_operator), rho * np.kron(np.eye(2), U), "mass is unweighted", t, data=data)
            close(dyn.element_initial_volume, v, "volumes are unweighted", t, data=data)
            close(np.asarray(dyn.volume_at_nodes).sum(axis=1), nodal, "load operator is unweighted", t, data=data)
    return f"kind {kind} {ne} elements"


@case(8, 60)
def update_density(rng, i):
    """NonHomogenousSolver.update_density reaches the system that is solved"""
    from conmech.simulations.problem_solver import NonHomogenousSolver
    from conmech.scenarios.problems import StaticDisplacementProblem
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    descr = CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[1, 1])
    bd = BoundariesDescription(contact=lambda x: x[1] == 0, dirichlet=lambda x: x[0] == 0)
    method = ["schur", "global", "direct"][i % 3]
    s = NonHomogenousSolver(problem(StaticDisplacementProblem, descr, bd, inner=lambda x, t=None: np.array([0.1, -0.2]),
                                    outer=lambda x, t=None: np.array([0.3, 0.1]), mu_coef=3.0, la_coef=2.0, contact_law=make_slope_contact_law(0.0)), method)
    m = s.body.mesh
    for k in range(3):
        w = rng.uniform(0.2, 2, len(m.elements))
        s.update_density(w)
        K = hooke(m.nodes, m.elements, 3.0, 2.0, w)
        n, nd = m.nodes_count, m.dirichlet_nodes_count
        free = np.concatenate([np.arange(n - nd), n + np.arange(n - nd)])
        lhs = s.step_solver.statement.left_hand_side.data
        close(lhs[np.ix_(free, free)], K[np.ix_(free, free)], "system matrix after update_density", 1e-8, data=w.tolist())
        need(str(s.step_solver) == {"global": "global optimization"}.get(method, method), "update_density changed the method")
    f = np.zeros((n, 2))
    st = s.solve(initial_displacement=lambda x: np.zeros_like(x))
    F = s.body.dynamics.force.integrate(time=0)
    u = np.zeros(2 * n)
    u[free] = np.linalg.solve(K[np.ix_(free, free)], F[free])
    close(stack(st.displacement), u, "solution with densities", 2e-3, data=w.tolist())
    return f"{method}"
