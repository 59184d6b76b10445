"""C04: densities per element."""
from contracts.lib import *
from contracts.c03 import hooke, Wt, blocks

FUNCTIONS = ["Dynamics.asembly_w_matrix_with_density", "Dynamics.reinitialize_matrices", "Dynamics.relaxation", "NonHomogenousSolver.update_density",
             "dynamics_factory_method.get_dynamics", "DynamicsFactory2D.calculate_constitutive_matrices"]
ASSUMPTIONS = ["callee contract: get_basic_matrices returns the local stiffness matrices loc[k,l,e,i,j] and their assembled sum (proved by C02)",
               "precondition: two-dimensional bodies (three-dimensional local matrices are not provided by the library)"]


def weighted(ne, dens):
    def w(k, l, a, b):
        e = tm.fresh("e", True)
        body = ZERO
        for i in range(3):
            for j in range(3):
                body = body + (dens(e) * app("loc", (lift(k), lift(l), e, lift(i), lift(j)))
                               * tm.ind_eq(app("el", (e, lift(i)), True) - lift(a)) * tm.ind_eq(app("el", (e, lift(j)), True) - lift(b)))
        return tm.mk_sum(e, ZERO, ne, body)
    return w


def use(h, w):
    return lambda p, q, a, b: tm.subst_fun(h(p, q, a, b), "W", lambda k, l, x, y: w(int(k.const()), int(l.const()), x, y))


def density(s, kind):
    D = s.load("conmech.dynamics.dynamics")
    P = s.load("conmech.properties.body_properties")
    if not hasattr(D, "get_basic_matrices"):
        raise SpecGone("get_basic_matrices is not used by conmech.dynamics.dynamics")
    g = lambda nm: var("p_" + nm)

    def run():
        n, ne, nodes, el = symbolic_mesh(2)
        U, V, W = A.symbolic("U", (n, n)), A.symbolic("V", (2, n, n)), A.symbolic("W", (2, 2, n, n))
        van, vols = A.symbolic("van", (n, n)), A.symbolic("vols", (ne,))
        D.get_basic_matrices = lambda elements, nodes: (vols.copy(), van.copy(), U.copy(), V.copy(), W.copy(), A.symbolic("loc", (2, 2, ne, 3, 3)))
        body = Obj(mesh=Obj(elements=el, nodes=nodes, dimension=2, nodes_count=n), dynamics=None)
        te, tc = A.symbolic("te", (2, 2)), A.symbolic("tc", (2, 2))
        if kind == "temperature":
            body.properties = P.ViscoelasticTemperatureProperties(mass_density=g("rho"), mu=g("mu"), lambda_=g("la"), theta=g("th"), zeta=g("ze"),
                                                                  thermal_expansion=te, thermal_conductivity=tc)
        elif kind == "relaxation":
            body.properties = P.ElasticRelaxationProperties(mass_density=g("rho"), mu=g("mu"), lambda_=g("la"),
                                                            relaxation=lambda t: A.make((2, 2, 2), lambda ix: app("rlx", (lift(t),) + tuple(lift(i) for i in ix))))
        else:
            body.properties = P.ElasticProperties(mass_density=g("rho"), mu=g("mu"), lambda_=g("la"))
        dyn = D.Dynamics(body)
        t1 = var("t1")
        if kind == "relaxation":
            dyn.relaxation(t1)
        dens, dens2 = A.symbolic("dens", (ne,)), A.symbolic("dens2", (ne,))
        fd = frozen(dens)
        if kind == "elastic":
            dyn.reinitialize_matrices(dens2)       # an earlier density must leave no trace
        dyn.reinitialize_matrices(dens)
        rel = dyn.relaxation(t1) if kind == "relaxation" else None
        return n, ne, dyn, dens, fd, el, rel
    paths = explore(run)
    s.no_exception("density update", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        n, ne, dyn, dens, fd, el, rel = p.value
        w = weighted(ne, lambda e: app("dens", (e,)))
        blocks(s, "elasticity", dyn.elasticity.data, use(hooke(2, g("mu"), g("la")), w), n, 2, 2, "reinitialize_matrices")
        if kind == "temperature":
            blocks(s, "viscosity", dyn.viscosity.data, use(hooke(2, g("th"), g("ze")), w), n, 2, 2, "reinitialize_matrices")
            v = lambda k, a, b: app("V", (lift(k), a, b))
            blocks(s, "thermal expansion does not depend on density", dyn.thermal_expansion.data, lambda p_, q, a, b: sum((app("te", (lift(q), lift(k))) * v(k, a, b) for k in range(2)), ZERO), n, 1, 2)
        if kind == "relaxation":
            def f(p_, q, a, b):
                t = lambda *ix: app("rlx", tuple(lift(x) for x in (var("t1"),) + ix))
                if p_ == q:
                    return sum((t(p_, k, k) * Wt(k, k, a, b) for k in range(2)), ZERO)
                return sum((t(p_, k, 1 - k) * Wt(k, 1 - k, a, b) for k in range(2)), ZERO)
            blocks(s, "relaxation after the update", rel.data, use(f, w), n, 2, 2, "Dynamics.relaxation")
        blocks(s, "inertia does not depend on density", dyn.acceleration_operator.data, lambda p_, q, a, b: g("rho") * app("U", (a, b)) if p_ == q else ZERO, n, 2, 2)
        s.array_eq("nodal volumes do not depend on density", dyn.volume_at_nodes, lambda ix: app("van", tuple(lift(i) for i in ix)))
        s.array_eq("element volumes do not depend on density", dyn.element_initial_volume, lambda ix: app("vols", tuple(lift(i) for i in ix)))
        s.array_eq("frame: densities unchanged", dens, fd)
        s.defs("indices are in range")
    s.nonvacuous()


def unit(s):
    """all densities one: the weighted matrix is the assembled one; linear in the densities"""
    n, ne, nodes, el = symbolic_mesh(2)
    c = ctx()
    a, b = ivar("a"), ivar("b")
    c.assume(a >= 0, a < n, b >= 0, b < n)
    k1, k2 = var("k1"), var("k2")
    for k in range(2):
        for l in range(2):
            x = weighted(ne, lambda e: ONE)(k, l, a, b)
            y = weighted(ne, lambda e: app("d1", (e,)))(k, l, a, b)
            z = weighted(ne, lambda e: app("d2", (e,)))(k, l, a, b)
            s.zero(f"linear in the densities [{k},{l}]", weighted(ne, lambda e: k1 * app("d1", (e,)) + k2 * app("d2", (e,)))(k, l, a, b) - k1 * y - k2 * z)
            # the assembled matrix of C02, with loc as the local matrix
            e = tm.fresh("e", True)
            body = ZERO
            for i in range(3):
                for j in range(3):
                    body = body + app("loc", (lift(k), lift(l), e, lift(i), lift(j))) * tm.ind_eq(app("el", (e, lift(i)), True) - a) * tm.ind_eq(app("el", (e, lift(j)), True) - b)
            s.zero(f"unit densities give the unweighted matrix [{k},{l}]", x - tm.mk_sum(e, ZERO, ne, body))
    s.nonvacuous()


def update(s):
    """NonHomogenousSolver.update_density passes the densities on and rebuilds the step solver with the same method"""
    PS = s.load("conmech.simulations.problem_solver")
    cls = getattr(PS, "NonHomogenousSolver", None)
    if cls is None:
        raise SpecGone("NonHomogenousSolver is gone")
    log = []

    class Dyn:
        def reinitialize_matrices(self, elements_density=None):
            log.append(("matrices", elements_density))

    def run():
        del log[:]
        ps = object.__new__(cls)
        ps.body = Obj(dynamics=Dyn())
        ps.problem = Obj(statement=lambda body: (log.append(("statement", body)), Obj())[1], second_statement=lambda body: None, contact_law=None)
        ps.time_step = var("dt")
        ps.driving_vector = False

        class Sol:
            def __init__(self, statement, body, time_step, contact_law, driving_vector=False):
                log.append(("solver", body))

            def __str__(self):
                return "the method"
        ps.step_solver = object.__new__(Sol)
        ps.second_step_solver = None
        PS.SolversRegistry = Obj(get_by_name=lambda solver_name, problem: (log.append(("name", solver_name)), Sol)[1])
        dens = A.symbolic("dens", (ivar("ne"),))
        ctx().assume(ivar("ne") >= 1)
        ps.update_density(dens)
        return list(log), dens, ps
    for p in explore(run):
        s.no_exception("update_density", [p])
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        lg, dens, ps = p.value
        kinds = [k for k, _ in lg]
        s.true("matrices are rebuilt from the given densities", kinds.count("matrices") == 1 and dict(lg)["matrices"] is dens)
        s.true("the solver is rebuilt after the matrices", "solver" in kinds and "matrices" in kinds and kinds.index("matrices") < kinds.index("solver"))
        s.true("with the same method", all(v == "the method" for k, v in lg if k == "name"))
        s.array_eq("frame: densities unchanged", dens, lambda ix: app("dens", (lift(ix[0]),)))


def sections(tier):
    return [(f"density weighting [{k} body]", (lambda s, k=k: density(s, k)), 300) for k in ("elastic", "temperature", "relaxation")] + [
        ("consequences", unit, 100), ("update_density", update, 60)]
