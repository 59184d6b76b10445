"""C03: constitutive operators."""
from contracts.lib import *

FUNCTIONS = ["DynamicsFactory{2D,3D}.calculate_constitutive_matrices", "calculate_acceleration", "calculate_thermal_expansion",
             "calculate_thermal_conductivity", "DynamicsFactory2D.get_relaxation_tensor", "get_piezoelectric_tensor", "get_permittivity_tensor",
             "AbstractDynamicsFactory.calculate_poisson_matrix", "calculate_wave_matrix", "dynamics_factory_method.get_dynamics", "get_factory",
             "Dynamics.__init__", "Dynamics.reinitialize_matrices", "Dynamics.relaxation", "StiffnessMatrix (all operators)", "SM2.SM1", "SM3.SM1"]
ASSUMPTIONS = ["basic matrices U, V, W are arbitrary (their values are C02's contract); W[k,l] transposed is W[l,k] (C02) is used for symmetry only"]

DYN = "conmech.dynamics.factory.dynamics_factory_method"
PROPS = "conmech.properties.body_properties"


def basic(d):
    n = ivar("n")
    ctx().assume(n >= 1)
    return n, A.symbolic("U", (n, n)), A.symbolic("V", (d, n, n)), A.symbolic("W", (d, d, n, n))


def blocks(s, name, data, spec, n, rows, cols, fn=""):
    """for every block (p, q) and local indices (a, b): data[p*n+a, q*n+b] == spec(p, q, a, b)"""
    c = ctx()
    ok = len(data.shape) == 2 and A.dims_equal(data.shape[0], rows * n) and A.dims_equal(data.shape[1], cols * n)
    s.record(name + ".shape", "proved" if ok else "refuted", "dimensions", "" if ok else f"{data.shape}", 0.0, fn)
    if not ok:
        return
    a, b = tm.fresh("a", True), tm.fresh("b", True)
    f = c.facts.extend(a >= 0, a < n, b >= 0, b < n)
    old = c.facts
    for p in range(rows):
        for q in range(cols):
            c.facts = f
            try:
                s.eq(f"{name}[{p},{q}]", data.get((p * n + a, q * n + b)), spec(p, q, a, b), f, fn)
            finally:
                c.facts = old


def Wt(k, l, a, b):
    return app("W", (lift(k), lift(l), lift(a), lift(b)))


def hooke(d, mu, la):
    def f(p, q, a, b):
        r = mu * Wt(q, p, a, b) + la * Wt(p, q, a, b)
        if p == q:
            r = r + mu * sum((Wt(m, m, a, b) for m in range(d)), ZERO)
        return r
    return f


def coeffs(name, shape):
    return A.symbolic(name, shape)


def factory_of(s, d):
    return s.get(DYN, "get_factory")(d)


def operators(s, d):
    mu, la, rho, prop = var("mu"), var("la"), var("rho"), var("prop")
    c2 = {}

    def run():
        fac = factory_of(s, d)
        n, U, V, W = basic(d)
        fr = [frozen(U), frozen(V), frozen(W)]
        out = {}
        th, co = A.symbolic("th", (d, d)), A.symbolic("co", (d, d))
        out["hooke"] = fac.calculate_constitutive_matrices(W, mu, la)
        out["acc"] = fac.calculate_acceleration(U, rho)
        out["texp"] = fac.calculate_thermal_expansion(V, th)
        out["tcond"] = fac.calculate_thermal_conductivity(W, co)
        out["poisson"] = fac.calculate_poisson_matrix(W, prop)
        if hasattr(fac, "calculate_wave_matrix"):
            out["wave"] = fac.calculate_wave_matrix(W)
        if d == 2:
            re, pz = A.symbolic("re", (2, 2, 2)), A.symbolic("pz", (2, 2, 2))
            out["relax"] = fac.get_relaxation_tensor(W, re)
            iso = A.from_list([[[2 * mu + la, la], [mu, mu]], [[mu, mu], [la, 2 * mu + la]]])
            out["iso"] = fac.get_relaxation_tensor(W, iso)
            out["piezo"] = fac.get_piezoelectric_tensor(W, pz)
            out["perm"] = fac.get_permittivity_tensor(W, co)
        return n, U, V, W, fr, out
    paths = explore(run)
    s.no_exception("operators are built", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        n, U, V, W, fr, o = p.value
        sm = s.load("conmech.struct.stiffness_matrix")
        dims = {"hooke": (d, d), "acc": (d, d), "texp": (1, d), "tcond": (1, 1), "poisson": (1, 1), "relax": (2, 2), "perm": (1, 1)}
        for k, dm in dims.items():
            if k in o:
                s.true(f"{k} is a {dm} operator", getattr(o[k], "DIMENSION", None) == dm)
        blocks(s, "elasticity/viscosity", o["hooke"].data, hooke(d, mu, la), n, d, d, "calculate_constitutive_matrices")
        u = lambda a, b: app("U", (a, b))
        v = lambda k, a, b: app("V", (lift(k), a, b))
        blocks(s, "inertia", o["acc"].data, lambda p_, q, a, b: rho * u(a, b) if p_ == q else ZERO, n, d, d, "calculate_acceleration")
        t = lambda nm, *ix: app(nm, tuple(lift(x) for x in ix))
        blocks(s, "thermal expansion", o["texp"].data, lambda p_, q, a, b: sum((t("th", q, k) * v(k, a, b) for k in range(d)), ZERO), n, 1, d, "calculate_thermal_expansion")
        full = lambda nm: (lambda p_, q, a, b: sum((t(nm, k, l) * Wt(k, l, a, b) for k in range(d) for l in range(d)), ZERO))
        blocks(s, "thermal conductivity", o["tcond"].data, full("co"), n, 1, 1, "calculate_thermal_conductivity")
        lap = lambda p_, q, a, b: prop * prop * sum((Wt(k, k, a, b) for k in range(d)), ZERO)
        blocks(s, "membrane", o["poisson"].data, lap, n, 1, 1, "calculate_poisson_matrix")
        if "wave" in o:
            blocks(s, "laplacian", o["wave"], lambda p_, q, a, b: sum((Wt(k, k, a, b) for k in range(d)), ZERO), n, 1, 1, "calculate_wave_matrix")
        if d == 2:
            def rel(nm):
                def f(p_, q, a, b):
                    if p_ == q:
                        return sum((t(nm, p_, k, k) * Wt(k, k, a, b) for k in range(2)), ZERO)
                    return sum((t(nm, p_, k, 1 - k) * Wt(k, 1 - k, a, b) for k in range(2)), ZERO)
                return f
            blocks(s, "relaxation", o["relax"].data, rel("re"), n, 2, 2, "get_relaxation_tensor")
            blocks(s, "isotropic relaxation is elasticity", o["iso"].data, hooke(2, mu, la), n, 2, 2, "get_relaxation_tensor")
            pzf = lambda p_, q, a, b: sum((t("pz", q, k, l) * Wt(k, l, a, b) for k in range(2) for l in range(2)), ZERO)
            blocks(s, "piezoelectricity", o["piezo"].data, pzf, n, 1, 2, "get_piezoelectric_tensor")
            blocks(s, "permittivity", o["perm"].data, full("co"), n, 1, 1, "get_permittivity_tensor")
        s.array_eq("frame: U unchanged", U, fr[0])
        s.array_eq("frame: V unchanged", V, fr[1])
        s.array_eq("frame: W unchanged", W, fr[2])
        for k in ("hooke", "acc", "texp", "tcond", "poisson"):
            s.true(f"{k} does not alias the basic matrices", all(getattr(o[k].data, "root", o[k].data) is not getattr(x, "root", x) for x in (U, V, W)))
        s.defs("indices are in range")
    s.nonvacuous()


def form(s, d):
    """consequences: symmetric, and no force for translations and linearised rotations"""
    c = ctx()
    mu, la = var("mu"), var("la")
    # symmetry from W[k,l](a,b) = W[l,k](b,a)
    n = ivar("n")
    a, b = ivar("a"), ivar("b")
    h = hooke(d, mu, la)

    def tr(t):   # rewrite W(k,l,b,a) -> W(l,k,a,b)
        return tm.subst_fun(t, "W", lambda k, l, x, y: app("W", (k, l, x, y)) if x is a else app("W", (l, k, y, x)))
    for p in range(d):
        for q in range(d):
            s.zero(f"symmetric[{p},{q}]", tr(h(p, q, a, b) - h(q, p, b, a)))
    # element level: W_e[k,l](i,j) = vol g_i[k] g_j[l]; sum_j g_j[m] u_j[q] = R[q][m] for u = t + R x (C01)
    g = [var(f"g{k}") for k in range(d)]
    vol = var("vol")
    R = [[ZERO] * d for _ in range(d)]
    for i in range(d):
        for j in range(i):
            w = var(f"w{i}{j}")
            R[i][j], R[j][i] = w, -w
    for p in range(d):
        force = ZERO
        for q in range(d):
            # sum_j hooke_e(p,q,i,j) u_j[q], with W_e(k,l,i,j) u_j[q] summed = vol g_i[k] R[q][l]
            term = tm.subst_fun(h(p, q, a, b), "W", lambda k, l, x, y: vol * g[int(k.const())] * R[q][int(l.const())])
            force = force + term
        s.zero(f"no force for rigid motions [{p}]", force)


def routing(s, d):
    P = s.load(PROPS)
    gd = s.get(DYN, "get_dynamics")
    kinds = ["ElasticProperties", "ViscoelasticProperties", "ElasticTemperatureProperties", "ViscoelasticTemperatureProperties",
             "ElasticRelaxationProperties", "MembraneProperties"] + (["ViscoelasticPiezoelectricProperties"] if d == 2 else [])
    import dataclasses
    for kind in kinds:
        cls = getattr(P, kind, None)
        if cls is None:
            raise SpecGone(f"{kind} is gone")

        def run():
            n, U, V, W = basic(d)
            vals = {}
            for f in dataclasses.fields(cls):
                nm = f.name
                if nm in ("thermal_expansion", "thermal_conductivity", "permittivity"):
                    vals[nm] = A.symbolic(nm, (d, d))
                elif nm == "piezoelectricity":
                    vals[nm] = A.symbolic(nm, (d, d, d))
                elif nm == "relaxation":
                    vals[nm] = lambda t: None
                else:
                    vals[nm] = var("p_" + nm)
            el = A.symbolic("els", (ivar("ne"), d + 1), "i")
            ctx().assume(ivar("ne") >= 1)
            pr = cls(**vals)
            return n, vals, gd(elements=el, body_prop=pr, U=U, V=V, W=W)
        paths = explore(run)
        s.no_exception(f"{kind}: operators are built", paths)
        for p in paths:
            if p.exc is not None:
                continue
            C.CTX[0] = p.ctx
            n, vals, ops = p.value
            names = ["acceleration", "elasticity", "viscosity", "thermal_expansion", "thermal_conductivity", "piezoelectricity", "permittivity", "poisson"]
            o = dict(zip(names, ops))
            t = lambda nm, *ix: app(nm, tuple(lift(x) for x in ix))
            u = lambda a, b: app("U", (a, b))
            v = lambda k, a, b: app("V", (lift(k), a, b))
            want = {"acceleration": (lambda p_, q, a, b: vals["mass_density"] * u(a, b) if p_ == q else ZERO, d, d)}
            if "mu" in vals:
                want["elasticity"] = (hooke(d, vals["mu"], vals["lambda_"]), d, d)
            if "theta" in vals:
                want["viscosity"] = (hooke(d, vals["theta"], vals["zeta"]), d, d)
            full = lambda nm: (lambda p_, q, a, b: sum((t(nm, k, l) * Wt(k, l, a, b) for k in range(d) for l in range(d)), ZERO))
            if "thermal_expansion" in vals:
                want["thermal_expansion"] = (lambda p_, q, a, b: sum((t("thermal_expansion", q, k) * v(k, a, b) for k in range(d)), ZERO), 1, d)
                want["thermal_conductivity"] = (full("thermal_conductivity"), 1, 1)
            if "piezoelectricity" in vals:
                want["piezoelectricity"] = (lambda p_, q, a, b: sum((t("piezoelectricity", q, k, l) * Wt(k, l, a, b) for k in range(2) for l in range(2)), ZERO), 1, 2)
                want["permittivity"] = (full("permittivity"), 1, 1)
            if "propagation" in vals:
                want["poisson"] = (lambda p_, q, a, b: vals["propagation"] ** 2 * sum((Wt(k, k, a, b) for k in range(d)), ZERO), 1, 1)
            for nm in names:
                if nm in want:
                    if o[nm] is None:
                        s.record(f"{kind}.{nm} exists", "refuted", "symbolic execution", "operator is None")
                        continue
                    f, r, q = want[nm]
                    blocks(s, f"{kind}.{nm}", o[nm].data, f, n, r, q, "get_dynamics")
                else:
                    s.true(f"{kind} has no {nm}", o[nm] is None)
    s.nonvacuous()


def dynamics(s, d):
    """Dynamics keeps each operator under its own name, built from the mesh's own matrices"""
    P = s.load(PROPS)
    D = s.load("conmech.dynamics.dynamics")
    if not hasattr(D, "get_basic_matrices"):
        raise SpecGone("get_basic_matrices is not used by conmech.dynamics.dynamics")
    seen = []

    def run():
        n, U, V, W = basic(d)
        ne = ivar("ne")
        ctx().assume(ne >= 1)
        el = A.symbolic("els", (ne, d + 1), "i")
        nodes = A.symbolic("nds", (n, d))
        van, vols = A.symbolic("van", (n, n)), A.symbolic("vols", (ne,))
        del seen[:]

        def gbm(elements, nodes):
            seen.append((elements, nodes))
            return vols, van, U, V, W, A.symbolic("loc", (d, d, ne, d + 1, d + 1))
        D.get_basic_matrices = gbm
        body = Obj(mesh=Obj(elements=el, nodes=nodes, dimension=d, nodes_count=n), dynamics=None)
        g = lambda nm: var("p_" + nm)
        te, tc = A.symbolic("thermal_expansion", (d, d)), A.symbolic("thermal_conductivity", (d, d))
        body.properties = P.ViscoelasticTemperatureProperties(mass_density=g("rho"), mu=g("mu"), lambda_=g("la"), theta=g("th"), zeta=g("ze"),
                                                              thermal_expansion=te, thermal_conductivity=tc)
        dyn = D.Dynamics(body)
        body2 = Obj(mesh=body.mesh, dynamics=None)
        body2.properties = P.MembraneProperties(mass_density=g("rho"), propagation=g("c"))
        dyn2 = D.Dynamics(body2)
        rel = None
        if d == 2:
            body3 = Obj(mesh=body.mesh, dynamics=None)
            body3.properties = P.ElasticRelaxationProperties(mass_density=g("rho"), mu=g("mu"), lambda_=g("la"),
                                                             relaxation=lambda t: A.make((2, 2, 2), lambda ix: app("rlx", (lift(t),) + tuple(lift(i) for i in ix))))
            dyn3 = D.Dynamics(body3)
            t1, t2 = var("t1"), var("t2")
            r1 = dyn3.relaxation(t1)
            r2 = dyn3.relaxation(t2)
            r1b = dyn3.relaxation(t1)
            rel = (r1, r2, r1b)
        return n, body, dyn, dyn2, rel, el, nodes, list(seen), tc
    paths = explore(run)
    s.no_exception("Dynamics is built", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        n, body, dyn, dyn2, rel, el, nodes, seen_, tc = p.value
        g = lambda nm: var("p_" + nm)
        u = lambda a, b: app("U", (a, b))
        v = lambda k, a, b: app("V", (lift(k), a, b))
        t = lambda nm, *ix: app(nm, tuple(lift(x) for x in ix))
        s.true("matrices are those of the body's mesh", bool(seen_) and all(a is el and b is nodes for a, b in seen_))
        s.true("body knows its dynamics", body.dynamics is dyn)
        blocks(s, "acceleration_operator", dyn.acceleration_operator.data, lambda p_, q, a, b: g("rho") * u(a, b) if p_ == q else ZERO, n, d, d)
        blocks(s, "elasticity", dyn.elasticity.data, hooke(d, g("mu"), g("la")), n, d, d)
        blocks(s, "viscosity", dyn.viscosity.data, hooke(d, g("th"), g("ze")), n, d, d)
        blocks(s, "thermal_expansion", dyn.thermal_expansion.data, lambda p_, q, a, b: sum((t("thermal_expansion", q, k) * v(k, a, b) for k in range(d)), ZERO), n, 1, d)
        blocks(s, "thermal_conductivity", dyn.thermal_conductivity.data, lambda p_, q, a, b: sum((t("thermal_conductivity", k, l) * Wt(k, l, a, b) for k in range(d) for l in range(d)), ZERO), n, 1, 1)
        s.true("no operators the body lacks", dyn.piezoelectricity is None and dyn.permittivity is None and dyn.poisson_operator is None and dyn2.elasticity is None and dyn2.viscosity is None and dyn2.thermal_expansion is None)
        blocks(s, "poisson_operator", dyn2.poisson_operator.data, lambda p_, q, a, b: g("c") ** 2 * sum((Wt(k, k, a, b) for k in range(d)), ZERO), n, 1, 1)
        s.array_eq("nodal volumes", dyn.volume_at_nodes, lambda ix: app("van", tuple(lift(i) for i in ix)), shape=(n, n))
        s.array_eq("element volumes", dyn.element_initial_volume, lambda ix: app("vols", tuple(lift(i) for i in ix)))
        if rel is not None:
            for nm, r, tt in zip(("first", "later", "again"), rel, (var("t1"), var("t2"), var("t1"))):
                def f(p_, q, a, b, tt=tt):
                    if p_ == q:
                        return sum((t("rlx", tt, p_, k, k) * Wt(k, k, a, b) for k in range(2)), ZERO)
                    return sum((t("rlx", tt, p_, k, 1 - k) * Wt(k, 1 - k, a, b) for k in range(2)), ZERO)
                blocks(s, f"relaxation({nm} time)", r.data, f, n, 2, 2, "Dynamics.relaxation")
    s.nonvacuous()


def algebra(s):
    """operator algebra: entrywise, operands unchanged except by in-place operators, copies independent"""
    M = s.load("conmech.struct.stiffness_matrix")
    k = var("k")
    for cls in ("SM1", "SM2", "SM3"):
        def run():
            m = ivar("m")
            ctx().assume(m >= 1)
            n = {"SM1": 1, "SM2": 2, "SM3": 3}[cls] * m
            K = getattr(M, cls)
            X, Y = A.symbolic("X", (n, n)), A.symbolic("Y", (n, n))
            v = A.symbolic("v", (n,))
            a, b = K(X), K(Y)
            out = dict(add=a + b, radd=k + a if False else a + Y, rmul=k * a, mul=a * k, cp=a.copy(), mv=a @ v, mm=a @ b, rmm=Y @ a if False else a.__rmatmul__(Y), T=a.T)
            out["row"] = a[:, 0] if False else None
            if cls != "SM1":
                out["sm1"] = a.SM1
            c1 = a.copy()
            c1 += b
            out["iadd"] = c1
            c2 = a.copy()
            c2 *= k
            out["imul"] = c2
            return m, n, K, X, Y, v, out, a
        paths = explore(run)
        s.no_exception(f"{cls} operations", paths)
        for p in paths:
            if p.exc is not None:
                continue
            C.CTX[0] = p.ctx
            m, n, K, X, Y, v, o, a = p.value
            x = lambda i, j: app("X", (lift(i), lift(j)))
            y = lambda i, j: app("Y", (lift(i), lift(j)))

            def dot(i, f, h):
                q = tm.fresh("q", True)
                return tm.mk_sum(q, ZERO, n, f(i, q) * h(q))
            s.true(f"{cls} results have the class of their operand", all(type(o[z]) is K for z in ("add", "radd", "rmul", "mul", "cp", "iadd", "imul")))
            for nm, spec in (("add", lambda ix: x(*ix) + y(*ix)), ("radd", lambda ix: x(*ix) + y(*ix)), ("rmul", lambda ix: k * x(*ix)), ("mul", lambda ix: k * x(*ix)),
                             ("cp", lambda ix: x(*ix)), ("iadd", lambda ix: x(*ix) + y(*ix)), ("imul", lambda ix: k * x(*ix))):
                s.array_eq(f"{cls}.{nm}", o[nm].data, spec, shape=(n, n))
            s.array_eq(f"{cls}.matvec", o["mv"], lambda ix: dot(ix[0], x, lambda q: app("v", (q,))), shape=(n,))
            s.array_eq(f"{cls}.matmat", o["mm"], lambda ix: dot(ix[0], x, lambda q: y(q, ix[1])), shape=(n, n))
            s.array_eq(f"{cls}.rmatmul", o["rmm"], lambda ix: dot(ix[0], y, lambda q: x(q, ix[1])), shape=(n, n))
            s.array_eq(f"{cls}.T", o["T"], lambda ix: x(ix[1], ix[0]), shape=(n, n))
            if "sm1" in o:
                s.array_eq(f"{cls}.SM1", o["sm1"].data, lambda ix: x(*ix), shape=(m, m))
            s.array_eq(f"{cls} operand unchanged", X, lambda ix: x(*ix))
            s.array_eq(f"{cls} other operand unchanged", Y, lambda ix: y(*ix))
    s.nonvacuous()


def sections(tier):
    return (both_dims(operators, "operators from arbitrary matrices") + both_dims(form, "consequences of the Hooke form")
            + both_dims(routing, "routing by body properties") + both_dims(dynamics, "operators held by Dynamics")
            + [("operator algebra", algebra, 200)])
