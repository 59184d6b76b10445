"""Ghost trajectory and loop invariants for the time loops (C14)."""
from contracts.lib import *
from pyvc import harness

PSM = "conmech.simulations.problem_solver"
PR = "conmech.scenarios.problems"
VECS = ("b_vector", "u_vector", "v_vector", "t_vector", "p_vector")
GHOST = dict(b_vector="B", u_vector="U", v_vector="V", t_vector="W", p_vector="W")


class Stub:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"the code uses {n} of an object the contract leaves abstract")


KINDS = {
    "static": dict(driver="StaticSolver", problem="StaticDisplacementProblem", state="State", coord="displacement", sys="", init=("U",)),
    "nonhomogeneous": dict(driver="NonHomogenousSolver", problem="StaticDisplacementProblem", state="State", coord="displacement", sys="", init=("U",)),
    "relaxation": dict(driver="QuasistaticRelaxation", problem="RelaxationQuasistaticProblem", state="State", coord="displacement", sys="BU", init=("B", "U")),
    "quasistatic": dict(driver="TimeDependentSolver", problem="QuasistaticDisplacementProblem", state="State", coord="velocity", sys="UV", init=("U", "V")),
    "dynamic": dict(driver="TimeDependentSolver", problem="DynamicDisplacementProblem", state="State", coord="velocity", sys="UV", init=("U", "V")),
    "wave": dict(driver="WaveSolver", problem="WaveProblem", state="State", coord="velocity", sys="UV", init=("U", "V")),
    "temperature": dict(driver="TemperatureTimeDependentSolver", problem="TemperatureDynamicProblem", state="TemperatureState", coord="velocity", sys="UVW", init=("U", "V", "W"), scalar="temperature", vec="t_vector"),
    "piezo quasistatic": dict(driver="PiezoelectricTimeDependentSolver", problem="PiezoelectricQuasistaticProblem", state="PiezoelectricState", coord="velocity", sys="UVW", init=("U", "V", "W"), scalar="electric_potential", vec="p_vector"),
    "piezo dynamic": dict(driver="PiezoelectricTimeDependentSolver", problem="PiezoelectricDynamicProblem", state="PiezoelectricState", coord="velocity", sys="UVW", init=("U", "V", "W"), scalar="electric_potential", vec="p_vector"),
    "poisson": dict(driver="PoissonSolver", problem="PoissonProblem", state="TemperatureState", coord="temperature", sys="W", init=("W",), scalar="temperature", vec="t_vector"),
}
PARAMS = ("mu_coef", "la_coef", "th_coef", "ze_coef", "propagation")


class World:
    """one simulation: an abstract mesh, abstract step solvers and the trajectory they have to produce"""

    def __init__(self, s, kind, d, name):
        self.s, self.kind, self.d = s, kind, d
        self.spec = KINDS[kind]
        self.sec = harness.Section(s.name)
        self.n = ivar("n")
        ctx().assume(self.n >= 1)
        self.dt = var("dt")
        ctx().assume(self.dt > 0)
        self.steps = set()           # ids of the variables that count steps
        self.loops = 0
        self.solves = 0
        self.options = dict(method=object(), maxiter=object())      # options the user gives to solve()
        self.coupled = "scalar" in self.spec and kind != "poisson"
        self.static = kind in ("static", "nonhomogeneous", "poisson")
        self.step = ZERO if self.static else self.dt
        self.m = s.load(PSM)
        self.nodes = A.symbolic("nodes", (self.n, d))
        self.properties = None
        self.build()
        ctx().inv_rule = self.rule

    # ---- the solver object of the driver
    def build(self):
        w, m = self, self.m
        mesh = Stub(nodes=self.nodes, nodes_count=self.n, dimension=self.d, contact_nodes_count=ivar("cn"))
        self.mesh = mesh
        P = self.s.get(PR, self.spec["problem"])
        src = {q: object() for q in ("inner_forces", "outer_forces", "internal_temperature", "outer_temperature")}
        user = type("UserProblem", (P,), dict(statement=(lambda self, body: None if w.kind == "poisson" else Stub(body=body)),
                                              second_statement=(lambda self, body: Stub(body=body) if w.coupled or w.kind == "poisson" else None),
                                              inner_forces=src["inner_forces"], outer_forces=src["outer_forces"],
                                              internal_temperature=src["internal_temperature"], outer_temperature=src["outer_temperature"]))
        pb = object.__new__(user)
        fields = dict(mesh_descr=object(), boundaries=object(), contact_law=object(), contact_law_2=object(), thermal_expansion=A.symbolic("cexp", (3, 3)),
                      thermal_conductivity=A.symbolic("ccond", (3, 3)), piezoelectricity=A.symbolic("cpz", (3, 3)), permittivity=A.symbolic("cpm", (3, 3)),
                      relaxation=lambda t: A.symbolic("crlx", (3, 3)), **{q: var("p_" + q) for q in PARAMS})
        for k, v in fields.items():
            pb.__dict__[k] = v
        if not self.static:
            pb.__dict__["time_step"] = self.dt
        self.problem, self.fields, self.src = pb, fields, src

        def make_mesh(mesh_descr=None, boundaries_description=None, **k):
            w.mesh_args = (mesh_descr, boundaries_description)
            return mesh

        def dynamics(body):
            if getattr(body, "dynamics", None) is None:
                f = lambda: Stub(inner=Stub(source=None), outer=Stub(source=None))
                body.dynamics = Stub(force=f(), temperature=f(), body=body)
            return body.dynamics
        for nm in ("Mesh", "Dynamics", "SolversRegistry"):
            if not hasattr(m, nm):
                raise SpecGone(f"problem_solver.py does not use {nm}")
        m.Mesh, m.Dynamics = make_mesh, dynamics
        m.SolversRegistry = Stub(get_by_name=lambda solver_name, problem: Solver)
        self.solvers = []

        class Solver(Stub):
            """contract of a step solver: `iterate` rebuilds the system from the vectors held (C16), `solve` needs the system of the
            present values and returns a fresh vector"""
            def __init__(sv, statement, body, time_step, contact_law=None, driving_vector=False, **k):
                Stub.__init__(sv)
                sv.statement, sv.body, sv.time_step, sv.contact_law, sv.driving_vector = statement, body, time_step, contact_law, driving_vector
                q = len(w.solvers)
                size = lambda nm: w.n if nm in ("t_vector", "p_vector") else w.d * w.n
                for nm in VECS:         # whatever an earlier simulation left behind
                    setattr(sv, nm, A.symbolic(f"left{q}{nm}", (size(nm),)))
                sv.current_time = var(f"left{q}time") if not w.static else ZERO     # without a time step the clock stays at 0
                sv.computation_time = 0
                sv.system = {nm: (lambda i, k, nm=nm: app(f"sys{q}{nm}", (lift(i), lift(k)))) for nm in VECS}
                sv.system["time"] = var(f"sys{q}time")
                sv.system["built"] = False
                w.solvers.append(sv)

            def __str__(sv):
                return "stub"

            def iterate(sv):
                sv.system = {nm: w.reader(getattr(sv, nm), nm) for nm in VECS}
                sv.system["time"] = sv.current_time
                sv.system["built"] = True

            def solve(sv, initial_guess, **kw):
                return w.solved(sv, kw)
        self.Solver = Solver
        self.ps = self.s.get(PSM, self.spec["driver"])(pb, "stub")
        self.state_cls = self.s.get("conmech.state.state", self.spec["state"])
        w.state = None
        cls = self.state_cls

        class Live(cls):
            def __init__(self, body):
                super().__init__(body)
                if w.state is None:
                    w.state = self
        if not hasattr(m, self.spec["state"]):
            raise SpecGone(f"problem_solver.py does not use {self.spec['state']}")
        setattr(m, self.spec["state"], Live)
        self.ps.done = ivar("done_before")
        if not self.static:
            self.ps.to_do = ivar("todo_before")
        if self.coupled:
            if not hasattr(type(self.ps), "find_solution_uzawa"):
                raise SpecGone("find_solution_uzawa does not exist")
            self.ps.find_solution_uzawa = self.uzawa
        self.main = self.ps.step_solver if self.kind != "poisson" else self.ps.second_step_solver

    def reader(self, a, nm):
        cp = a.copy()
        if nm in ("t_vector", "p_vector"):
            return lambda i, k=None: cp.get((i,))
        return lambda i, k: cp.get((lift(k) * self.n + lift(i),)) if not isinstance(k, int) or k else cp.get((i,))

    # ---- ghost trajectory
    def start(self, readers, t0=ZERO):
        self.cur, self.k, self.t0 = dict(readers), ZERO, t0
        self.line = [(ZERO, dict(readers))]

    def time(self, k=None):
        return lift(self.t0) + (self.k if k is None else k) * self.step

    def advance(self, sol, scalar=None):
        """the values after one step from the present ones"""
        c, r = self.cur, dict(self.cur)
        dt = self.step
        if self.kind == "poisson":
            r["W"] = sol
        elif self.spec["coord"] == "displacement":
            r["U"] = sol
            r["B"] = lambda i, k: lift(c["B"](i, k)) + dt * sol(i, k)
        else:
            r["V"] = sol
            r["U"] = lambda i, k: lift(c["U"](i, k)) + dt * sol(i, k)
        if scalar is not None:
            r["W"] = scalar
        self.cur, self.k = r, self.k + 1
        self.solves += 1
        self.line.append((self.k, dict(r)))

    def at(self, k):
        for q, r in reversed(self.line):
            if q is k or ctx().facts.decide(tm.ind_eq(lift(q) - k)) is True:
                return r
        return None

    # ---- contracts of the callees
    def need_system(self, sv, label):
        sec = self.sec
        sec.true(f"{label}: the system was rebuilt", sv.system["built"])
        for g in self.spec["sys"]:
            nm = {v: k for k, v in GHOST.items() if k != "t_vector" or self.spec.get("vec") == "t_vector"}[g] if g != "W" else self.spec["vec"]
            self.equal(sec, f"{label}: system built from the present {nm}", lambda i, k=None, nm=nm: sv.system[nm](i, k), g)
        if self.spec["sys"] and self.kind != "poisson":
            sec.eq(f"{label}: system built for the present time", sv.system["time"], self.time())

    def equal(self, sec, label, got, g):
        c = ctx()
        a = tm.fresh("a", True)
        fs = c.facts.extend(a >= 0, a < self.n)
        old, c.facts = c.facts, fs
        try:
            for k in (range(self.d) if g != "W" else (None,)):
                x = got(a, k) if k is not None else got(a)
                y = self.cur[g](a, k) if k is not None else self.cur[g](a)
                sec.eq(label + ("" if k is None else f"[{k}]"), x, y, fs, f"{self.spec['driver']}.solve")
        finally:
            c.facts = old

    def vectors_present(self, sv, label, names):
        for nm in names:
            self.equal(self.sec, f"{label}: {nm} holds the present values", self.reader(getattr(sv, nm), nm), GHOST[nm])

    def handed_on(self, kw):
        self.sec.true("the options given to solve() reach the solver", all(kw.get(o) is v for o, v in self.options.items()))

    def solved(self, sv, kw):
        if self.coupled:
            raise Unsupported("a coupled step that does not go through find_solution_uzawa")
        lab = "step"
        self.handed_on(kw)
        self.need_system(sv, lab)
        if self.kind != "poisson":
            self.vectors_present(sv, lab, ("u_vector",) + (("v_vector",) if "V" in self.spec["sys"] else ()))
        self.sec.true("the step uses the solver of its equation", sv is self.main)
        self.sec.eq("the time of the solver is the end of the step", sv.current_time, self.time(self.k + 1 if self.kind != "poisson" else ZERO)) if self.kind != "poisson" else None
        kk = self.k + 1
        if self.kind == "poisson":
            self.advance(lambda i, k=None: app("SOL", (kk, lift(i))))
            return A.make((self.n,), lambda ix: app("SOL", (kk, lift(ix[0]))))
        n = self.n
        self.advance(lambda i, k: app("SOL", (kk, lift(k) * n + lift(i))))
        return A.make((self.d * n,), lambda ix: app("SOL", (kk, lift(ix[0]))))

    def uzawa(self, solution, solution_t, *a, **kw):
        """contract of the coupled step (C15)"""
        n, kk = self.n, self.k + 1
        one, two = self.ps.step_solver, self.ps.second_step_solver
        self.handed_on(kw)
        for sv, lab in ((one, "first solver"), (two, "second solver")):
            self.sec.eq(f"{lab}: the time is the end of the step", sv.current_time, self.time(kk))
            self.sec.eq(f"{lab}: time step", sv.time_step, self.step)
        self.vectors_present(one, "coupled step", ("u_vector", "v_vector", self.spec["vec"]))
        self.vectors_present(two, "coupled step, second solver", ("u_vector", "v_vector", self.spec["vec"]))
        self.advance(lambda i, k: app("SOL", (kk, lift(k) * n + lift(i))), lambda i, k=None: app("SOLW", (kk, lift(i))))
        velocity = A.make((self.d * n,), lambda ix: app("SOL", (kk, lift(ix[0]))))
        second = A.make((n,), lambda ix: app("SOLW", (kk, lift(ix[0]))))
        old = one.u_vector.copy()
        for sv in (one, two):
            sv.v_vector = velocity.reshape(-1)
            sv.u_vector = old + sv.time_step * sv.v_vector
            sv.p_vector = second
            sv.t_vector = second
        return velocity, second

    # ---- the loop rule
    def tracked(self, state):
        out = [(state, f) for f in ("absement", "displacement", "velocity", "displaced_nodes")]
        if "scalar" in self.spec:
            out.append((state, self.spec["scalar"]))
        for sv in self.solvers:
            out += [(sv, nm) for nm in VECS]
        return out

    def structure(self, tr):
        ids = {}
        return tuple(ids.setdefault(id(getattr(o, f).root), len(ids)) for o, f in tr)

    def state_ghost(self):
        out = {"absement": "B", "displacement": "U", "velocity": "V"}
        if "scalar" in self.spec:
            out[self.spec["scalar"]] = "W"
        if self.spec["coord"] == "displacement":
            out.pop("velocity")
        else:
            out.pop("absement")
        return out

    def state_holds(self, sec, state):
        for f, g in self.state_ghost().items():
            a = getattr(state, f)
            cp = a.copy()
            self.equal(sec, f"state.{f}", (lambda i, k, cp=cp: cp.get((i, k))) if g != "W" else (lambda i, cp=cp: cp.get((i,))), g)
        sec.eq("state.time", state.time, self.time())

    def candidates(self):
        out = []
        for q, sv in enumerate(self.solvers):
            for nm in VECS:
                if GHOST[nm] in self.cur:
                    out.append((q, "vec", nm))
                    out.append((q, "sys", nm))
            out += [(q, "time", "now"), (q, "time", "system"), (q, "sys", "built")]
        return out

    def holds(self, cand):
        q, what, nm = cand
        sv = self.solvers[q]
        tmp = harness.Section("candidate")
        if what == "vec":
            self.equal(tmp, "", self.reader(getattr(sv, nm), nm), GHOST[nm])
        elif what == "time":
            tmp.eq("", sv.current_time if nm == "now" else sv.system["time"], self.time())
        elif nm == "built":
            tmp.true("", sv.system["built"])
        else:
            self.equal(tmp, "", sv.system[nm], GHOST[nm])
        return all(r["status"] == "proved" for r in tmp.results)

    def rule(self, vc, it, body, names, site):
        if not (lift(it.n).fv() & self.steps):
            return False
        c = ctx()
        if c.guards or c.loop_depth or getattr(c, "inv_depth", 0):
            raise Unsupported("a time loop inside a merged branch or another loop")
        n = lift(it.n)
        k0 = self.k
        if c.truth(n <= 0):
            return True
        state = self.state
        tr = self.tracked(state)
        cells = R.cells_of((body,), names)
        objs = [self.ps, self.ps.body, state, self.mesh, self.problem] + self.solvers
        self.loops += 1
        base = c.facts
        known = {id(v) for o in objs for v in vars(o).values() if isinstance(v, (list, dict, set))}
        for cl in (body.__closure__ or ()):
            v = R._cell(cl)
            if isinstance(v, (list, dict, set)):
                known.add(id(v))
        c.inv_known = known

        def run_body(index):
            before = {id(o): dict(vars(o)) for o in objs}
            s0 = self.solves
            c.inv_depth = 1
            try:
                body(it.item(index))
            finally:
                c.inv_depth = 0
            if self.solves != s0 + 1:
                self.sec.true(f"one step per iteration at {site}", False)
                raise Unsupported("an iteration of the time loop without exactly one step")
            free = {(id(o), f) for o, f in tr} | {(id(sv), x) for sv in self.solvers for x in ("current_time", "system")} | {(id(state), "time"), (id(self.ps), "done"), (id(state), "_State__stress")}
            for o in objs:
                for f in set(before[id(o)]) | set(vars(o)):
                    if (id(o), f) in free:
                        continue
                    if before[id(o)].get(f, R.UNBOUND) is not vars(o).get(f, R.UNBOUND):
                        raise Unsupported(f"the time loop changes {type(o).__name__}.{f}, which its invariant does not mention")

        def poison():
            for x, nm in zip(cells, names):
                v = R._cell(x)
                if v is R.UNBOUND:
                    continue
                if isinstance(v, (int, T)) and not isinstance(v, bool):
                    R._setcell(x, tm.fresh("local", True) if not isinstance(v, T) or v.is_int() else tm.fresh("local"))
                else:
                    R._setcell(x, R.Poison(f"{nm} is carried through the time loop"))

        def havoc(k, keep):
            """an arbitrary later iteration: everything the loop changes is only known through the invariant"""
            self.k = k
            self.cur = {g: (lambda i, q=None, g=g: app("traj" + g, (lift(k), lift(i)) + (() if q is None else (lift(q),)))) for g in self.cur}
            z = lambda i, q: None
            n = self.n
            state.displaced_nodes[:] = A.symbolic(f"hx{self.loops}", (n, self.d))
            for sv_i, sv in enumerate(self.solvers):
                for nm in VECS:
                    getattr(sv, nm)[:] = A.symbolic(f"h{self.loops}{sv_i}{nm}", getattr(sv, nm).shape)
            for f in ("absement", "displacement", "velocity"):
                getattr(state, f)[:] = A.symbolic(f"h{self.loops}{f}", (n, self.d))
            for sv_i, sv in enumerate(self.solvers):
                sv.current_time = self.time() if (sv_i, "time", "now") in keep else tm.fresh("time")
                old = sv.system
                sv.system = {nm: (self.cur[GHOST[nm]] if (sv_i, "sys", nm) in keep else (lambda i, q=None, nm=nm, u=self.loops, sv_i=sv_i: app(f"hs{u}{sv_i}{nm}", (lift(i), lift(q or 0))))) for nm in VECS}
                sv.system["time"] = self.time() if (sv_i, "time", "system") in keep else tm.fresh("time")
                sv.system["built"] = (sv_i, "sys", "built") in keep
                for nm in VECS:
                    if (sv_i, "vec", nm) in keep:
                        g = GHOST[nm]
                        cur = self.cur[g]
                        if g == "W":
                            getattr(sv, nm)[:] = A.make((n,), lambda ix, cur=cur: cur(ix[0]))
                        else:
                            v = getattr(sv, nm)
                            for q in range(self.d):
                                v[q * n:(q + 1) * n] = A.make((n,), lambda ix, cur=cur, q=q: cur(ix[0], q))
            for f, g in self.state_ghost().items():
                cur = self.cur[g]
                getattr(state, f)[:] = A.make((n, self.d), lambda ix, cur=cur: cur(ix[0], ix[1])) if g != "W" else A.make((n,), lambda ix, cur=cur: cur(ix[0]))
            state.time = self.time()
            self.ps.done = tm.fresh("done", True)
            poison()

        # candidates at the entry
        keep = {x for x in self.candidates() if self.holds(x)}
        self.state_holds(self.sec, state)
        c.facts = base.extend(n >= 1)
        run_body(ZERO)
        self.state_holds(self.sec, state)
        keep = {x for x in keep if self.holds(x)}
        for _ in range(8):
            kk = tm.fresh("kk", True)
            tr_s = self.structure(tr)
            mark, cnt = len(self.sec.results), self.solves
            c.facts = base.extend(kk >= 1, kk < n)
            havoc(k0 + kk, keep)
            self.sec.nonvacuous("the generic step is possible")
            run_body(kk)
            self.state_holds(self.sec, state)
            lost = {x for x in keep if not self.holds(x)}
            same = self.structure(tr) == tr_s
            if not lost and same:
                break
            keep -= lost
            del self.sec.results[mark:]
        else:
            raise Unsupported("the time loop has no stable invariant")
        c.facts = base
        havoc(k0 + n, keep)
        self.line.append((self.k, dict(self.cur)))
        return True
