"""Random meshes and material coefficients in 2-D and 3-D, every property class; operators held by the body against strain
forms and coefficient-weighted sums assembled independently; operator algebra of StiffnessMatrix."""
from bounded.lib import *
from conmech.properties.body_properties import (
    BodyProperties, ElasticProperties, ViscoelasticProperties, ElasticTemperatureProperties, ViscoelasticTemperatureProperties,
    ViscoelasticPiezoelectricProperties, ElasticRelaxationProperties, MembraneProperties)
from conmech.dynamics.factory.dynamics_factory_method import get_factory
import conmech.struct.stiffness_matrix as sm


def coef(rng, k):
    return [float(x) for x in rng.uniform(0.1, 9, k)]


def isotropic(mu, la):
    """relaxation tensor (2-D storage of the library) of isotropic form"""
    return np.array([[[2 * mu + la, la], [mu, mu]], [[mu, mu], [la, 2 * mu + la]]])


def D(op):
    return np.asarray(op.data)


KINDS = ["plain", "elastic", "visco", "etemp", "vtemp", "piezo", "relax", "membrane"]


@case(96, 960)
def operators(rng, i):
    kind = KINDS[i % 8]
    d = 2 if kind in ("piezo", "relax") else 2 + (i // 8) % 2
    mesh = random_body_mesh(rng, d)
    rho, mu, la, th, ze, c = coef(rng, 6)
    if i % 3 == 0:
        la = -0.3 * mu
    return held(rng, i, kind, d, mesh, rho, mu, la, th, ze, c)


@case(96, 960)
def any_size(rng, i):
    """coefficients of any magnitude and exact zeros, on tiny, huge and flat meshes and meshes with a sliver"""
    kind = KINDS[i % 8]
    d = 2 if kind in ("piezo", "relax") else 2 + (i // 8) % 2
    pts, el = scaled_mesh(rng, d, i // 8) if i % 2 else random_mesh(rng, d)
    mesh = Mesh(Raw(pts, el), random_boundaries(rng, pts))
    co = [magnitude(rng, int(rng.integers(0, 3))) for _ in range(6)]
    if i % 4 == 0:
        co[int(rng.integers(6))] = 0.0
    if i % 4 == 2:
        co = [float(10.0 ** rng.integers(-4, 5)) for _ in range(6)]
        co[2] = -0.5 * co[1]
    with relative():
        return held(rng, i, kind, d, mesh, *co, loose=True)


def held(rng, i, kind, d, mesh, rho, mu, la, th, ze, c, loose=False):
    te, tc = rng.uniform(-2, 2, (d, d)), rng.uniform(-2, 2, (d, d))
    if i % 2:
        tc = tc + tc.T
    pz, pm = rng.uniform(-2, 2, (2, 2, 2)), rng.uniform(-2, 2, (2, 2))
    rel = [rng.uniform(-2, 2, (2, 2, 2)), rng.uniform(-2, 2, (2, 2, 2)), isotropic(mu, la)]
    times = [0.0, 0.5, 0.5, 1.0, 0.0, 0.25, 0.75, 0.5]
    # at 0.25 and 0.75 the tensor hardly differs from the one at 0 (slow relaxation)
    pick = {0.0: rel[0], 0.5: rel[1], 1.0: rel[2], 0.25: rel[0] * (1 + 4e-6), 0.75: rel[0] * (1 + 4e-6) + 2e-6}
    base = dict(mass_density=rho)
    ela = dict(base, mu=mu, lambda_=la)
    vis = dict(ela, theta=th, zeta=ze)
    props = {
        "plain": lambda: BodyProperties(**base), "elastic": lambda: ElasticProperties(**ela), "visco": lambda: ViscoelasticProperties(**vis),
        "etemp": lambda: ElasticTemperatureProperties(**ela, thermal_expansion=te, thermal_conductivity=tc),
        "vtemp": lambda: ViscoelasticTemperatureProperties(**vis, thermal_expansion=te, thermal_conductivity=tc),
        "piezo": lambda: ViscoelasticPiezoelectricProperties(**vis, piezoelectricity=pz, permittivity=pm),
        "relax": lambda: ElasticRelaxationProperties(**ela, relaxation=lambda t: pick[t]),
        "membrane": lambda: MembraneProperties(**base, propagation=c)}[kind]()
    dyn = make_body(props, mesh).dynamics
    v, nodal, U, V, W, _ = p1_matrices(mesh.nodes, mesh.elements)
    n = mesh.nodes_count
    data = dict(kind=kind, d=d, mu=mu, la=la, th=th, ze=ze, rho=rho, c=c, nodes=mesh.nodes.tolist(), elements=mesh.elements.tolist())
    t = 1e-8 if not loose else 1e-6      # slivers amplify rounding
    close(D(dyn.acceleration_operator), rho * np.kron(np.eye(d), U), "inertia operator", t, data=data)
    has_e = kind not in ("plain", "membrane")
    has_v = kind in ("visco", "vtemp", "piezo")
    need((dyn.elasticity is not None) == has_e, f"elasticity exists iff the body is elastic ({kind})", data)
    need((dyn.viscosity is not None) == has_v, f"viscosity exists iff the body is viscous ({kind})", data)
    need((dyn.thermal_expansion is not None) == (kind in ("etemp", "vtemp")) and (dyn.thermal_conductivity is not None) == (kind in ("etemp", "vtemp")), f"thermal operators exist iff the body is thermal ({kind})", data)
    need((dyn.piezoelectricity is not None) == (kind == "piezo") and (dyn.permittivity is not None) == (kind == "piezo"), f"electric operators exist iff the body is piezoelectric ({kind})", data)
    need((dyn.poisson_operator is not None) == (kind == "membrane"), f"membrane operator exists iff the body is a membrane ({kind})", data)
    if has_e:
        K = D(dyn.elasticity)
        close(K, hooke(mesh.nodes, mesh.elements, mu, la), "elasticity operator", t, data=data)
        close(K, K.T, "elasticity symmetric", t, data=data)
        s = np.abs(K).max() * np.abs(mesh.nodes).max()
        for k in range(d):
            tr = np.zeros((n, d))
            tr[:, k] = 1
            close(K @ stack(tr), np.zeros(d * n), "force of a translation", t, scale=biggest(K), data=data)
        for a in range(d):
            for b in range(a):
                r = np.zeros((n, d))
                r[:, a], r[:, b] = mesh.nodes[:, b], -mesh.nodes[:, a]
                close(K @ stack(r), np.zeros(d * n), "force of a linearised rotation", t, scale=s, data=data)
    if has_v:
        close(D(dyn.viscosity), hooke(mesh.nodes, mesh.elements, th, ze), "viscosity operator", t, data=data)
    if kind in ("etemp", "vtemp"):
        close(D(dyn.thermal_expansion), np.hstack([sum(te[k, l] * V[l] for l in range(d)) for k in range(d)]), "thermal expansion", t, data=data)
        close(D(dyn.thermal_conductivity), np.einsum("kl,klij->ij", tc, W), "thermal conductivity", t, data=data)
    if kind == "piezo":
        close(D(dyn.permittivity), np.einsum("kl,klij->ij", pm, W), "permittivity", t, data=data)
        P = D(dyn.piezoelectricity)
        blk = lambda k: pz[k, 0, 0] * W[0, 0] + pz[k, 1, 1] * W[1, 1] + pz[k, 1, 0] * W[1, 0] + pz[k, 0, 1] * W[0, 1]
        close(P, np.hstack([blk(0), blk(1)]), "piezoelectric operator", t, data=data)
    if kind == "membrane":
        close(D(dyn.poisson_operator), c ** 2 * sum(W[k, k] for k in range(d)), "membrane operator", t, data=data)
    if kind == "relax":
        for tt in times:
            q = pick[tt]
            A = lambda a, x, b, y, e, z, f, w: 0
            want = np.block([[q[0][0][0] * W[0, 0] + q[0][1][1] * W[1, 1], q[0][1][0] * W[1, 0] + q[0][0][1] * W[0, 1]],
                             [q[1][1][0] * W[1, 0] + q[1][0][1] * W[0, 1], q[1][0][0] * W[0, 0] + q[1][1][1] * W[1, 1]]])
            close(D(dyn.relaxation(tt)), want, f"relaxation operator at time {tt}", t, data=data)
        close(D(dyn.relaxation(1.0)), D(dyn.elasticity), "relaxation of isotropic form is the elasticity operator", t, data=data)
        close(D(dyn.elasticity), hooke(mesh.nodes, mesh.elements, mu, la), "elasticity after relaxation requests", t, data=data)
    else:
        try:
            dyn.relaxation(0.0)
        except TypeError:
            pass
        else:
            raise Failure(f"a body without relaxation ({kind}) has a relaxation operator", data)
    return f"{kind} d={d} {n} nodes"


@case(40, 300)
def algebra(rng, i):
    """operators combine as matrices; plain operations leave operands alone, in-place ones give the updated operand"""
    cls, k = [(sm.SM1, 1), (sm.SM2, 2), (sm.SM3, 3)][i % 3]
    n = int(rng.integers(1, 5)) * k
    a, b, x, c = rng.normal(size=(n, n)), rng.normal(size=(n, n)), rng.normal(size=n), float(rng.normal())
    A, B = cls(a.copy()), cls(b.copy())
    def eq(op, want, what):
        got = op.data if isinstance(op, sm.StiffnessMatrix) else op
        close(got, want, what)
    eq(A + B, a + b, "sum")
    eq(A + c, a + c, "sum with a number")
    eq(c + A, a + c, "number plus operator")
    eq(A * c, c * a, "multiple")
    eq(c * A, c * a, "multiple")
    eq(A @ x, a @ x, "application")
    eq(A @ B, a @ b, "product")
    eq(A.T, a.T, "transpose")
    need(type(A + B) is cls and type(A * c) is cls and type(A.copy()) is cls, "kind of the result")
    C = A.copy()
    C.data[:] = 7
    eq(A, a, "copy is independent")
    eq(B, b, "operand unchanged")
    D_ = A.copy()
    D_ += B
    need(D_ is not None, "in-place sum lost the operator")
    eq(D_, a + b, "in-place sum")
    D_ *= c
    need(D_ is not None, "in-place multiple lost the operator")
    eq(D_, c * (a + b), "in-place multiple")
    if k > 1:
        eq(A.SM1, a[: n // k, : n // k], "first diagonal block")
    return f"{cls.__name__} {n}"
