"""C08: contact laws. The penetration is the unknown itself (slope, constant law) or old displacement + dt * unknown - level (damped law)."""
from contracts.lib import *

B_ = "conmech.dynamics.contact."
LAWS = {
    "slope": ("relu_slope_contact_law", "make_slope_contact_law", ("slope",)),
    "const": ("constant_constact_law", "make_const_contact_law", ("resistance",)),
    "damped": ("damped_normal_compliance", "make_damped_norm_compl", ("obstacle_level", "kappa", "beta")),
}
FUNCTIONS = ["make_slope_contact_law: potential and response", "make_const_contact_law: potential and response",
             "make_damped_norm_compl: bound, potential and response (interior or not)", "ContactLaw.normal_bound / tangential_bound",
             "DirectContactLaw.subderivative_tangential_direction", "PotentialOfContactLaw.potential_tangential_direction"]
ASSUMPTIONS = ["precondition: stiffness parameters are not negative, time steps are not negative; the obstacle level is any number"]


def setup(s, kind, **extra):
    mod, name, params = LAWS[kind]
    make = s.get(B_ + mod, name)
    par = {p: var(p) for p in params}
    for p in params:
        if p != "obstacle_level":
            ctx().assume(par[p] >= 0)
    t = var("t")
    ctx().assume(t >= 0)
    return make(**par, **extra), par, t


def penetration(kind, par, v, d, t):
    return d + v * t - par["obstacle_level"] if kind == "damped" else v


def each(s, label, run, check):
    paths = explore(run)
    s.no_exception(label, paths)
    for k, p in enumerate(paths):
        if p.exc is None:
            C.CTX[0] = p.ctx
            check(p.ctx.facts, *p.value)
    s.nonvacuous()


def response(s, kind, extra):
    v, w, d = var("v"), var("w"), var("d")

    def run():
        law, par, t = setup(s, kind, **extra)
        P, R = law.potential_normal_direction, law.subderivative_normal_direction
        out = law, par, t, P(v, d, t), R(v, d, t), R(w, d, t)
        ctx().facts.consistent()
        return out

    def check(f, law, par, t, p, r, r2):
        pen = penetration(kind, par, v, d, t)
        free = f.extend(pen < 0)
        s.zero("no potential without penetration", p, free, "potential_normal_direction")
        s.zero("no response without penetration", r, free, "subderivative_normal_direction")
        if kind != "damped":        # closed: the surface itself belongs to the free side
            edge = f.extend(pen <= 0)
            s.zero("no potential when just touching", p, edge)
            s.zero("no response when just touching", r, edge)
        s.true("response is not negative", lift(r) >= 0, f, "subderivative_normal_direction")
        s.true("response never decreases", lift(r2) >= lift(r), f.extend(v <= w), "subderivative_normal_direction")
        inn = f.extend(pen > 0)
        if inn.consistent():
            p_in = solve.simp(lift(p), inn)
            dp = derivative(p_in, v)
            if kind == "const":
                # listed finding: the potential carries the static displacement as a factor
                known = solve.prove_zero(dp - par["resistance"] * d, inn).status == "proved" and solve.prove_zero(lift(r) - par["resistance"], inn).status == "proved"
                s.zero("response is the derivative of the potential" + (" (static displacement is a factor)" if known else ""), dp - lift(r), inn)
                s.true("potential is not negative", lift(p) >= 0, f.extend(pen >= 0, v >= 0, d >= 0))
            else:
                s.zero("response is the derivative of the potential", dp - lift(r), inn)
                s.true("potential is not negative", lift(p) >= 0, f.extend(pen >= 0, v >= 0), "potential_normal_direction")
    each(s, "evaluation", run, check)


def forms(s, kind, extra):
    """closed form of the documented laws"""
    v, d = var("v"), var("d")

    def run():
        law, par, t = setup(s, kind, **extra)
        return law, par, t, law.potential_normal_direction(v, d, t), law.subderivative_normal_direction(v, d, t), law.normal_bound(v, d, t), law.tangential_bound(v, d, t)

    def check(f, law, par, t, p, r, nb, tb):
        pen = penetration(kind, par, v, d, t)
        inn = f.extend(pen > 0)
        if kind == "slope":
            s.eq("potential", p, par["slope"] * v * v / 2, inn)
            s.eq("response", r, par["slope"] * v, inn)
        elif kind == "const":
            s.eq("response", r, par["resistance"], inn)
            s.eq("potential at unit static displacement", tm.subst(lift(p), {tm.vid(d): ONE}), par["resistance"] * v, inn)
        else:
            s.eq("potential", p, par["kappa"] * pen + par["beta"] * v, inn)
            s.eq("response", r, par["kappa"] * t + par["beta"], inn)
        s.eq("normal bound", nb, v / 2 if kind == "damped" else ONE, f)
        s.eq("tangential bound", tb, ONE, f)
    each(s, "evaluation", run, check)


def defaults(s):
    m = s.load(B_ + "contact_law")
    I = s.load(B_ + "interior_contact_law")
    v, d, t = var("v"), var("d"), var("t")

    def run():
        tau, dtau = A.symbolic("tau", (ivar("n"),)), A.symbolic("dtau", (ivar("n"),))
        out = [m.ContactLaw.normal_bound(v, d, t), m.ContactLaw.tangential_bound(v, d, t),
               m.DirectContactLaw.subderivative_tangential_direction(tau, dtau, t), m.PotentialOfContactLaw.potential_tangential_direction(tau, dtau, t)]
        for k in LAWS:
            law, par, tt = setup(s, k)
            if hasattr(law, "potential_tangential_direction"):
                out.append(law.potential_tangential_direction(tau, dtau, t))
            if hasattr(law, "subderivative_tangential_direction"):
                out.append(law.subderivative_tangential_direction(tau, dtau, t))
        return out, tau, dtau

    def check(f, out, tau, dtau):
        for k, x in enumerate(out):
            s.eq(("normal bound is 1", "tangential bound is 1")[k] if k < 2 else f"no tangential part [{k - 2}]", x, ONE if k < 2 else ZERO, f)
        for a, nm in ((tau, "tau"), (dtau, "dtau")):
            s.array_eq(f"frame: {nm} unchanged", a, lambda ix, nm=nm: app(nm, (lift(ix[0]),)))
    each(s, "defaults", run, check)
    for flag, cls in ((True, I.InteriorContactLaw), (False, m.PotentialOfContactLaw)):
        law = s.get(B_ + LAWS["damped"][0], "make_damped_norm_compl")(var("o"), var("k"), var("b"), interior=flag)
        s.true(f"kind of the damped law [interior={flag}]", issubclass(law, cls) and (flag or not issubclass(law, I.InteriorContactLaw)))
        o = law()
        for nm, x in (("obstacle_level", "o"), ("kappa", "k"), ("beta", "b")):
            s.eq(f"parameter {nm} [interior={flag}]", getattr(o, nm), var(x))


def sections(tier):
    out = []
    for k in LAWS:
        for extra in ([{}] if k != "damped" else [dict(interior=False), dict(interior=True)]):
            tag = "" if not extra else f" interior={extra['interior']}"
            out.append((f"{k} law{tag}: response and potential", (lambda s, k=k, e=extra: response(s, k, e)), 100))
            out.append((f"{k} law{tag}: closed form", (lambda s, k=k, e=extra: forms(s, k, e)), 60))
    out.append(("defaults", defaults, 60))
    return out
