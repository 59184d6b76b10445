"""Random bodies, states, time steps and times; both sides of every statement against the discretised balance laws written
down from independently assembled operators; frame conditions on operators, states and loads."""
from bounded.lib import *
import conmech.dynamics.statement as st
from conmech.dynamics.statement import Variables
from conmech.properties.body_properties import (
    ElasticProperties, ViscoelasticProperties, ViscoelasticTemperatureProperties, ViscoelasticPiezoelectricProperties,
    ElasticRelaxationProperties, MembraneProperties)
import conmech.scenarios.problems as pr

LAWS = ["static", "quasistatic", "dynamic", "temperature_mech", "temperature", "piezo_q", "piezo_d", "piezo", "relaxation", "wave", "poisson"]


@case(110, 1100)
def law(rng, i):
    return both_sides(rng, i)


@case(528, 2640)
def special(rng, i):
    """zero, one-hot, tiny, huge and constant states, time steps from 1e-5 to 1e3, times at zero and far away, no loads, tiny meshes"""
    with relative():
        return both_sides(rng, i, special=True)


def both_sides(rng, i, special=False):
    name = LAWS[i % len(LAWS)]
    d = 3 if name in ("static", "poisson", "quasistatic", "dynamic", "temperature_mech", "temperature", "wave") and (i // len(LAWS)) % 2 else 2
    pts, el = random_mesh(rng, d)
    mesh = Mesh(Raw(pts, el), random_boundaries(rng, pts, dirichlet=False))     # no Dirichlet nodes: see C06
    rho, mu, la, th, ze, c, dt, t = [float(x) for x in rng.uniform(0.2, 4, 8)]
    j = i // len(LAWS)
    if special:
        if j % 5 == 4:
            pts, el = scaled_mesh(rng, d, int(rng.integers(6)))
            mesh = Mesh(Raw(pts, el), random_boundaries(rng, pts, dirichlet=False))
        dt = [1e-3, 1.0, 0.01, 1e-5, 10.0, 1e3, 0.5, dt][int(rng.integers(8))]
        t = [0.0, 1.0, dt, 1e-9, 1e4, -1.0, t][int(rng.integers(7))]
        if j % 3 == 2:
            rho, mu, la, th, ze, c = [magnitude(rng, int(rng.integers(3)), -3, 5) for _ in range(6)]
    te, tc = rng.uniform(-2, 2, (d, d)), rng.uniform(-2, 2, (d, d))
    pz, pm = rng.uniform(-2, 2, (2, 2, 2)), rng.uniform(-2, 2, (2, 2))
    q = rng.uniform(-2, 2, (2, 2, 2))
    rel = lambda s: q * (1 + s)
    vis = dict(mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze)
    if name == "static":
        props = ElasticProperties(rho, mu, la)
    elif name in ("quasistatic", "dynamic"):
        props = ViscoelasticProperties(**vis)
    elif name.startswith("temperature"):
        props = ViscoelasticTemperatureProperties(**vis, thermal_expansion=te, thermal_conductivity=tc)
    elif name.startswith("piezo"):
        props = ViscoelasticPiezoelectricProperties(**vis, piezoelectricity=pz, permittivity=pm)
    elif name == "relaxation":
        props = ElasticRelaxationProperties(mass_density=rho, mu=mu, lambda_=la, relaxation=rel)
    else:
        props = MembraneProperties(rho, c)
    body = make_body(props, mesh)
    dyn = body.dynamics
    n = mesh.nodes_count
    k = 1 if name in ("wave", "poisson") else d
    f0, f1 = rng.normal(size=k), rng.normal(size=k)
    if special:
        w = int(rng.integers(4))
        f0, f1 = f0 * [1.0, 0.0, 1.0, 0.0][w], f1 * [1.0, 0.0, 0.0, 1.0][w]
    dyn.force.inner.source = lambda x, s: f0 * (1 + s) * (1 + x[0])
    dyn.force.outer.source = lambda x, s: f1 * (2 - s)
    dyn.temperature.inner.source = lambda x, s: f1 * (1 + x[0])
    dyn.temperature.outer.source = lambda x, s: f0
    u, v, b = rng.normal(size=d * n), rng.normal(size=d * n), rng.normal(size=d * n)
    T, p = rng.normal(size=n), rng.normal(size=n)
    if special:
        # every state in turn is special while the others are ordinary; sometimes all of them
        names = [lambda: state(rng, d * n, (j // 6) if w < 5 else int(rng.integers(8))), lambda: state(rng, n, (j // 6) if w < 5 else int(rng.integers(8)))]
        w = j % 6
        u = names[0]() if w in (0, 5) else u
        v = names[0]() if w in (1, 5) else v
        b = names[0]() if w in (2, 5) else b
        T = names[1]() if w in (3, 5) else T
        p = names[1]() if w in (4, 5) else p
        at_rest = int(rng.integers(8))      # bodies at rest, at the reference temperature, without history
        u, v, b, T, p = (0 * x if at_rest == q else x for q, x in enumerate((u, v, b, T, p)))
    V_ = Variables(absement=b.copy(), displacement=u.copy(), velocity=v.copy(), temperature=T.copy(), electric_potential=p.copy(), time_step=dt, time=t)
    cls = {"static": (pr.StaticDisplacementProblem, 0), "quasistatic": (pr.QuasistaticDisplacementProblem, 0), "dynamic": (pr.DynamicDisplacementProblem, 0),
           "temperature_mech": (pr.TemperatureDynamicProblem, 0), "temperature": (pr.TemperatureDynamicProblem, 1), "piezo_q": (pr.PiezoelectricQuasistaticProblem, 0),
           "piezo_d": (pr.PiezoelectricDynamicProblem, 0), "piezo": (pr.PiezoelectricDynamicProblem, 1), "relaxation": (pr.RelaxationQuasistaticProblem, 0),
           "wave": (pr.WaveProblem, 0), "poisson": (pr.PoissonProblem, 1)}[name]
    s = (cls[0].second_statement if cls[1] else cls[0].statement)(body)
    ops = {o: np.asarray(getattr(dyn, o).data).copy() for o in ("acceleration_operator", "elasticity", "viscosity", "thermal_expansion", "thermal_conductivity",
                                                            "piezoelectricity", "permittivity", "poisson_operator") if getattr(dyn, o, None) is not None}
    _, nodal, U, V, W, _ = p1_matrices(mesh.nodes, mesh.elements)
    load = dyn.force.integrate(time=t if name not in ("static",) else 0).copy()
    load0 = dyn.temperature.integrate(time=0).copy()
    if i % 3 == 1:            # what an earlier update at another time with another step leaves behind does not matter
        s.update(Variables(absement=2 * b, displacement=1 - u, velocity=v + 1, temperature=-T, electric_potential=p + 3, time_step=1.7 * dt, time=0 if name == "static" else t + 0.5))
    s.update(V_)
    if i % 2:
        s.update(V_)          # rebuilding gives the same system
    M = rho * U
    Md = np.kron(np.eye(d), M)
    E = hooke(mesh.nodes, mesh.elements, mu, la)
    C = hooke(mesh.nodes, mesh.elements, th, ze)
    X = np.hstack([sum(te[a, l] * V[l] for l in range(d)) for a in range(d)])
    blk = lambda a: pz[a, 0, 0] * W[0, 0] + pz[a, 1, 1] * W[1, 1] + pz[a, 1, 0] * W[1, 0] + pz[a, 0, 1] * W[0, 1]
    P = np.hstack([blk(0), blk(1)])
    L = c ** 2 * sum(W[a, a] for a in range(d))
    if name == "static":
        A, r = E, load
    elif name in ("quasistatic", "piezo_q"):
        A, r = C + dt * E, load - E @ u
    elif name in ("dynamic", "temperature_mech", "piezo_d"):
        A, r = Md / dt + C + dt * E, load + Md @ v / dt - E @ u
    elif name == "temperature":
        A, r = M / dt + np.einsum("kl,klij->ij", tc, W), M @ T / dt - X @ v
    elif name == "piezo":
        A, r = np.einsum("kl,klij->ij", pm, W), P @ u
    elif name == "relaxation":
        R = rel(t)
        R = np.block([[R[0][0][0] * W[0, 0] + R[0][1][1] * W[1, 1], R[0][1][0] * W[1, 0] + R[0][0][1] * W[0, 1]],
                      [R[1][1][0] * W[1, 0] + R[1][0][1] * W[0, 1], R[1][0][0] * W[0, 0] + R[1][1][1] * W[1, 1]]])
        A, r = E + dt * R, load - R @ b
    elif name == "wave":
        A, r = M / dt + dt * L, load + M @ v[:n] / dt - L @ u[:n]
    else:
        A, r = L, load0
    if name == "temperature_mech":
        r = r + X.T @ T
    if name in ("piezo_q", "piezo_d"):
        r = r - P.T @ p
    terms = dict(static=[], quasistatic=[(E, u)], piezo_q=[(E, u), (P.T, p)], dynamic=[(E, u), (Md / dt, v)], temperature_mech=[(E, u), (Md / dt, v), (X.T, T)],
                 piezo_d=[(E, u), (Md / dt, v), (P.T, p)], temperature=[(M / dt, T), (X, v)], piezo=[(P, u)], wave=[(M / dt, v[:n]), (L, u[:n])], poisson=[],
                 relaxation=[(R, b)] if name == "relaxation" else [])[name]
    data = dict(law=name, d=d, dt=dt, t=t, nodes=mesh.nodes.tolist(), elements=mesh.elements.tolist())
    close(s.left_hand_side.data, A, f"{name}: left-hand side", 1e-6 if special else 1e-8, data=data)
    close(s.right_hand_side, r, f"{name}: right-hand side", 1e-6 if special and j % 5 == 4 else 1e-8, data=data, scale=biggest(r, load, *[np.abs(o) @ np.abs(q) for o, q in terms if np.size(o)]) if special else None)
    need((s.dimension_in, s.dimension_out) == ((1, 1) if name in ("temperature", "piezo", "wave", "poisson") else (d, d)), f"{name}: dimensions", data)
    for o, a in ops.items():
        close(np.asarray(getattr(dyn, o).data), a, f"{name}: operator {o} changed", 1e-13, data=data)
    for nm, a, o in (("absement", b, V_.absement), ("displacement", u, V_.displacement), ("velocity", v, V_.velocity), ("temperature", T, V_.temperature), ("potential", p, V_.electric_potential)):
        need(np.array_equal(a, o), f"{name}: {nm} changed", data)
    # writing into the system must not reach the operators or the loads
    s.left_hand_side.data[:] = 17.0
    s.right_hand_side[:] = 19.0
    for o, a in ops.items():
        close(np.asarray(getattr(dyn, o).data), a, f"{name}: operator {o} shared with the system", 1e-13, data=data)
    close(dyn.force.integrate(time=t if name != "static" else 0), load, f"{name}: loads shared with the system", 1e-13, data=data)
    return f"{name} d={d} {n} nodes dt={dt:.3f}"
