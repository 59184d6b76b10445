"""C14: the time loops of every kind of simulation, for any number of steps and any output steps, from any state of the solver object."""
from contracts.sim import *

FUNCTIONS = ["ProblemSolver.__init__ / run / find_solution", "__init__ and solve of StaticSolver, NonHomogenousSolver, PoissonSolver, QuasistaticRelaxation, TimeDependentSolver, WaveSolver, "
             "TemperatureTimeDependentSolver, PiezoelectricTimeDependentSolver", "State.set_displacement / set_velocity / set_temperature / set_electric_potential / copy (inlined)"]
ASSUMPTIONS = ["callee contracts: iterate() of the step solver rebuilds the system from the vectors it holds (C16; not the case for the direct method of dynamic problems, a listed finding), solve() returns a fresh vector, "
               "find_solution_uzawa() is C15's contract",
               "output steps are given in ascending order; lists of one, two and three arbitrary output steps and the default are covered", "real arithmetic (accumulated rounding of the clock is ignored)"]
TIMED = [k for k in KINDS if k not in ("static", "nonhomogeneous", "poisson")]
INIT = dict(B="initial_absement", U="initial_displacement", V="initial_velocity")


def initials(w, tag=""):
    """initial values that are arbitrary functions of the nodes"""
    out, ghost = {}, {}
    zero = lambda i, k=None: ZERO
    for g in "BUVW":
        ghost[g] = zero
    for g in w.spec["init"]:
        nm = "init" + g + tag
        if g == "W":
            if w.kind == "poisson":
                continue
            out["initial_" + w.spec["scalar"]] = lambda x, nm=nm: A.make((x.shape[0],), lambda ix: app(nm, tuple(lift(x.get((ix[0], q))) for q in range(w.d))))
            ghost[g] = lambda i, k=None, nm=nm: app(nm, tuple(app("nodes", (lift(i), lift(q))) for q in range(w.d)))
        else:
            out[INIT[g]] = lambda x, nm=nm: A.make(x.shape, lambda ix: app(nm, tuple(lift(x.get((ix[0], q))) for q in range(w.d)) + (lift(ix[1]),)))
            ghost[g] = lambda i, k, nm=nm: app(nm, tuple(app("nodes", (lift(i), lift(q))) for q in range(w.d)) + (lift(k),))
    return out, ghost


def over(s, label, run, check):
    paths = explore(run)
    s.no_exception(label, paths)
    for p in paths:
        if p.exc is None:
            C.CTX[0] = p.ctx
            w = p.value[0]
            s.results += [dict(r, name=r["name"].replace(s.name, s.name + "/" + label, 1)) for r in w.sec.results]
            check(*p.value)
            s.defs("indices in range")
    s.nonvacuous()


def snapshot(w, label, st, k):
    """a returned state holds the values of step k and its time"""
    s, r = w.s, w.at(k)
    if r is None:
        raise Unsupported(f"{label}: no step of the trajectory matches")
    old, w.cur, w.sec = (w.cur, w.sec), r, s
    kk, w.k = w.k, lift(k)
    n0 = len(s.results)
    try:
        w.state_holds(s, st)
        for f in ("velocity", "absement"):
            if f not in w.state_ghost():
                getattr(st, f)
    finally:
        (w.cur, w.sec), w.k = old, kk
    for q in s.results[n0:]:
        q["name"] = q["name"].replace("/state.", f"/{label}: ", 1)
    s.true(f"{label}: kind of state", isinstance(st, w.state_cls))


def timed(s, kind, d, outs, resume=False):
    """outs: number of requested output steps, 0 for the default"""
    def run():
        w = World(s, kind, d, s.name)
        N = ivar("N")
        w.steps.add(tm.vid(N))
        os_ = [ivar(f"o{j}") for j in range(outs)]
        prev = ZERO
        for o in os_:
            w.steps.add(tm.vid(o))
            ctx().assume(o >= prev)
            prev = o
        ctx().assume(N >= (prev if outs else 0), N >= 1)
        args, ghost = initials(w)
        kw = {}
        if outs:
            kw["output_step"] = tuple(os_)
        t0 = ZERO
        if resume:
            t0 = var("tresume")
            st = w.state_cls(w.ps.body)
            for f, g in (("absement", "B"), ("displacement", "U"), ("velocity", "V")):
                setattr(st, f, A.symbolic("res" + g, (w.n, d)))
                ghost[g] = lambda i, k, g=g: app("res" + g, (lift(i), lift(k)))
            st.time = t0
            w.state = st
            kw["state"] = st
        w.start(ghost, t0)
        res = w.ps.solve(n_steps=N, **args, **kw, **w.options)
        return w, list(res), (os_ or [N])

    def check(w, res, steps):
        ok = len(res) == len(steps)
        s.true("one snapshot per requested step", ok)
        if ok:
            for j, (r, k) in enumerate(zip(res, steps)):
                snapshot(w, f"snapshot {j + 1} of {len(steps)}", r, k)
                s.true(f"snapshot {j + 1} is not the live state", r is not w.state or len(res) == 1)
    over(s, f"{'resumed, ' if resume else ''}{outs or 'default'} output steps", run, check)


def single(s, kind, d, how):
    def run():
        w = World(s, kind, d, s.name)
        args, ghost = initials(w)
        if kind == "poisson":
            args = {}
        elif how == "values":
            f = args["initial_displacement"](w.nodes)
            args["initial_displacement"] = f
        w.start(ghost)
        return w, w.ps.solve(**args, **w.options)

    def check(w, st):
        s.true("exactly one step", w.solves == 1)
        snapshot(w, "result", st, ONE)
    over(s, "solve", run, check)


def repeated(s, kind, d):
    """two calls with a concrete number of steps: sharing between the steps, the snapshots and the object"""
    def run():
        w = World(s, kind, d, s.name)
        args, ghost = initials(w)
        w.start(ghost)
        first = list(w.ps.solve(n_steps=3, output_step=(1, 3), **args, **w.options))
        line1 = w.line
        args, ghost = initials(w, "second")
        w.state = None
        kw = dict(state=None) if kind == "wave" else {}
        w.start(ghost)
        second = list(w.ps.solve(n_steps=2, output_step=(1, 2), **args, **kw, **w.options))
        return w, first, line1, second

    def check(w, first, line1, second):
        s.true("two snapshots from each call", len(first) == 2 and len(second) == 2)
        for r, k in zip(second, (1, 2)):
            snapshot(w, f"second call, step {k}", r, lift(k))
        line2, w.line = w.line, line1
        for r, k in zip(first, (1, 3)):
            snapshot(w, f"first call after the second, step {k}", r, lift(k))
        w.line = line2
    over(s, "two calls", run, check)


def wiring(s, kind, d):
    """the driver hands the problem's data on unchanged"""
    def run():
        return (World(s, kind, d, s.name),)

    def check(w):
        ps, pb, b = w.ps, w.problem, w.ps.body
        s.true("mesh from the problem's description and boundaries", w.mesh_args == (pb.mesh_descr, pb.boundaries) and b.mesh is w.mesh)
        s.true("inner and outer forces", b.dynamics.force.inner.source is w.src["inner_forces"] and b.dynamics.force.outer.source is w.src["outer_forces"])
        if kind == "poisson":
            s.true("inner and outer temperature", b.dynamics.temperature.inner.source is w.src["internal_temperature"] and b.dynamics.temperature.outer.source is w.src["outer_temperature"])
        s.eq("time step", ps.time_step, w.step)
        for sv in w.solvers:
            s.eq("time step of the step solver", sv.time_step, w.step)
            s.true("body of the step solver", sv.body is b and sv.statement.body is b)
        s.true("solvers in use", (ps.step_solver is not None) == (kind != "poisson") and (ps.second_step_solver is not None) == (w.coupled or kind == "poisson"))
        if ps.step_solver is not None:
            s.true("contact law of the first equation", ps.step_solver.contact_law is pb.contact_law)
        if ps.second_step_solver is not None:
            s.true("contact law of the second equation", ps.second_step_solver.contact_law is pb.contact_law_2)
        pr = b.properties
        want = {}
        if kind in ("wave",):
            want["propagation"] = "propagation"
        elif kind != "poisson":
            want.update(mu="mu_coef", lambda_="la_coef")
            if kind not in ("static", "nonhomogeneous", "relaxation"):
                want.update(theta="th_coef", zeta="ze_coef")
        for f, q in want.items():
            s.eq(f"material: {f}", getattr(pr, f), var("p_" + q))
        for f in {"temperature": ("thermal_expansion", "thermal_conductivity"), "piezo quasistatic": ("piezoelectricity", "permittivity"), "piezo dynamic": ("piezoelectricity", "permittivity"),
                  "relaxation": ("relaxation",)}.get(kind, ()):
            s.true(f"material: {f}", getattr(pr, f) is w.fields[f])
        ps.refresh_solvers()
        k = 2 if w.coupled else 1
        for sv in w.solvers[k:]:
            s.eq("time step after refreshing", sv.time_step, w.step)
            s.true("body after refreshing", sv.body is b)
    over(s, "wiring", run, check)


def handing(s, k):
    """Solver.solve starts the method from the given guess, the solver's own old values and the options of the call"""
    Sv = s.get("conmech.solvers.solver", "Solver")

    def run():
        n = ivar("n")
        ctx().assume(n >= 1)
        sv = object.__new__(Sv)
        got = []

        def impl(initial_guess, *, variable_old, displacement, **kw):
            got.append((initial_guess, variable_old, displacement, kw))
            return A.symbolic("sol", (k * n,))
        sv._solve_impl = impl
        for f in VECS:
            setattr(sv, f, A.symbolic(f, (k * n,)))
        sv.statement = Stub(find_dirichlet_conditions=lambda: [], dimension_in=k, dimension_out=k)
        sv.body = Stub(mesh=Stub(nodes_count=n))
        opts = dict(method=object(), maxiter=object())
        return n, sv.solve(A.symbolic("guess", (k * n,)), **opts), got, opts

    def check(n, r, got, opts):
        ok = len(got) == 1
        s.true("the method runs once", ok)
        if ok:
            g, v, u, kw = got[0]
            x = ivar("x")
            f = C.CTX[0].facts.extend(x >= 0, x < k * n)
            for what, a, nm in (("guess", g, "guess"), ("old values", v, "v_vector"), ("displacement", u, "u_vector"), ("result", r, "sol")):
                s.eq(what, a.get((x,)), app(nm, (x,)), f, "Solver.solve")
            s.true("options", all(kw.get(o) is q for o, q in opts.items()))
    paths = explore(run)
    s.no_exception("solve", paths)
    for p in paths:
        if p.exc is None:
            C.CTX[0] = p.ctx
            check(*p.value)
    s.nonvacuous()


def unspecified(s, d):
    """initial values a problem leaves out are zero, one row or entry per node"""
    P = s.load(PR)
    for cls in sorted({v for v in vars(P).values() if isinstance(v, type) and issubclass(v, P.Problem)}, key=lambda c: c.__name__):
        for q in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
            if not hasattr(cls, "initial_" + q):
                continue
            f = getattr(cls, "initial_" + q)

            def run():
                n = ivar("n")
                ctx().assume(n >= 1)
                return n, f(A.symbolic("nodes", (n, d)))
            paths = explore(run)
            s.no_exception(f"{cls.__name__}: {q}", paths)
            for p in paths:
                if p.exc is not None:
                    continue
                C.CTX[0] = p.ctx
                n, r = p.value
                vec = q in ("displacement", "velocity", "absement")
                ok = isinstance(r, A.SArr) and len(r.shape) == (2 if vec else 1) and A.dims_equal(r.shape[0], n) and (not vec or A.dims_equal(r.shape[1], lift(d)))
                s.true(f"{cls.__name__}: {q}, one value per node", ok)
                if ok:
                    a = ivar("a")
                    fs = p.ctx.facts.extend(a >= 0, a < n)
                    for k in range(d if vec else 1):
                        s.zero(f"{cls.__name__}: {q} {k}", lift(r.get((a, k) if vec else (a,))), fs, "initial_" + q)
    s.nonvacuous()


def sections(tier):
    out = [(f"what a step solver starts from, {k} component(s)", (lambda s, k=k: handing(s, k)), 30) for k in (1, 2, 3)]
    out += [(f"initial values that are left out [{d}d]", (lambda s, d=d: unspecified(s, d)), 30) for d in (2, 3)]
    for kind in KINDS:
        for d in (2, 3):
            out.append((f"{kind} [{d}d]: wiring", (lambda s, k=kind, d=d: wiring(s, k, d)), 60))
    for kind in ("static", "nonhomogeneous", "poisson"):
        for d in (2, 3):
            for how in ("function", "values") if kind != "poisson" else ("none",):
                out.append((f"{kind} [{d}d], initial {how}", (lambda s, k=kind, d=d, h=how: single(s, k, d, h)), 60))
    for kind in TIMED:
        for d in (2, 3):
            for outs in (0, 1, 2, 3):
                out.append((f"{kind} [{d}d], {outs or 'default'} output step(s)", (lambda s, k=kind, d=d, o=outs: timed(s, k, d, o)), 200))
            out.append((f"{kind} [{d}d], called twice", (lambda s, k=kind, d=d: repeated(s, k, d)), 200))
    for d in (2, 3):
        for outs in (0, 2):
            out.append((f"wave [{d}d], resumed, {outs or 'default'} output step(s)", (lambda s, d=d, o=outs: timed(s, "wave", d, o, True)), 200))
    return out
