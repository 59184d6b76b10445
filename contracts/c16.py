"""C16: solver registry: registration, lookup by name and kind, construction, refresh."""
from contracts.lib import *

REG = "conmech.solvers._solvers"
PS = "conmech.simulations.problem_solver"
PR = "conmech.scenarios.problems"
FUNCTIONS = ["SolversRegistry.register / get_by_name", "every @SolversRegistry.register decoration", "ProblemSolver.solving_method (get, set) / refresh_solvers",
             "Solver.__init__", "__str__ of every registered solver"]
ASSUMPTIONS = ["every use the code makes of a method name goes through lower(); a registered name is represented by all spellings with that lower-case form",
               "problem classes: all those of conmech.scenarios.problems and user classes derived from each of them"]
KINDS = ("static", "quasistatic", "quasistatic relaxation", "dynamic")


class Name:
    """an arbitrary text of which only the lower-case form is known"""
    def __init__(self, low):
        self.low = low

    def lower(self):
        return self.low

    def casefold(self):
        return self.low

    def __getattr__(self, n):
        raise Unsupported(f"method name used through {n}")

    def __eq__(self, o):
        raise Unsupported("method name compared")

    def __hash__(self):
        raise Unsupported("method name hashed")

    def __str__(self):
        return self.low.title()


class Other:
    """the lower-case form of an arbitrary text that is no registered name: equal to no registered name, nothing else is known"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"unknown method name used through {n}")

    def __eq__(self, o):
        if isinstance(o, str) or o is self or isinstance(o, Other):
            return o is self
        raise Unsupported("unknown method name compared")

    __hash__ = object.__hash__

    def _no(self, *a):
        raise Unsupported("unknown method name taken apart")

    __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __bool__ = _no

    def lower(self):
        return self

    casefold = lower

    def __str__(self):
        return "(some other name)"

    __repr__ = __str__


def kind_of(P, cls):
    """the kind a problem class belongs to"""
    for base, kind in (("RelaxationQuasistaticProblem", "quasistatic relaxation"), ("StaticProblem", "static"),
                       ("QuasistaticProblem", "quasistatic"), ("DynamicProblem", "dynamic")):
        if issubclass(cls, getattr(P, base)):
            return kind
    return None


def problem_classes(s):
    P = s.load(PR)
    base = P.Problem
    out = [v for v in vars(P).values() if isinstance(v, type) and issubclass(v, base)]
    return P, sorted(set(out), key=lambda c: c.__name__)


def bare(cls):
    """an instance of a user class derived from a problem class"""
    user = type("User" + cls.__name__, (cls,), {})
    ob = object.__new__(user)
    return ob


def attempt(f):
    try:
        return f(), None
    except (Unsupported, R.NeedFork, C.PathAbort):
        raise
    except Exception as e:
        return None, e


def registry(s):
    s.load("conmech.solvers")
    s.load("conmech.solvers.direct")
    s.load("conmech.solvers.optimization.global_optimization")
    s.load("conmech.solvers.optimization.schur_complement")
    r = s.get(REG, "SolversRegistry")
    if not isinstance(getattr(r, "solvers", None), dict):
        raise SpecGone("SolversRegistry.solvers is no dictionary")
    return r


def expected_method(s, name):
    G = s.get("conmech.solvers.optimization.global_optimization", "GlobalOptimization")
    S = s.get("conmech.solvers.optimization.schur_complement", "SchurComplementOptimization")
    D = s.get("conmech.solvers.direct", "Direct")
    return {"global": G, "global optimization": G, "schur": S, "schur complement": S, "schur complement method": S, "direct": D}.get(name)


def table(s):
    """what is registered where"""
    r = registry(s)
    s.true("the four kinds of problem", set(r.solvers) == set(KINDS))
    for kind in KINDS:
        dyn = r.solvers.get(kind, {})
        for name in ("global", "global optimization", "schur", "schur complement", "schur complement method"):
            s.true(f"{name} is registered for {kind} problems", name in dyn)
        for name, cls in sorted(dyn.items()):
            m = expected_method(s, name)
            s.true(f"names are kept in lower case: {kind}/{name}", name == name.lower())
            if m is not None:
                s.true(f"{kind}/{name} is a solver of that method", issubclass(cls, m))
    for kind in ("static", "dynamic"):
        s.true(f"direct is registered for {kind} problems", "direct" in r.solvers.get(kind, {}))
    # every kind's solver of a method is another class, except where the kinds share the solver by registration
    for name in ("global", "schur"):
        rel, plain = r.solvers["quasistatic relaxation"].get(name), r.solvers["quasistatic"].get(name)
        s.true(f"relaxation problems do not get the plain quasistatic solver ({name})", rel is not plain and not (rel and plain and issubclass(plain, rel)))


FIELDS = {"quasistatic": ("displacement", "electric_potential", "time_step", "time"), "quasistatic relaxation": ("absement", "displacement", "time_step", "time"),
          "dynamic": ("displacement", "velocity", "temperature", "electric_potential", "time_step", "time"), "static": ()}


def kinds_of_solvers(s):
    """the solver registered for a kind rebuilds the system from all the values this kind needs"""
    r = registry(s)
    T = {"absement": "b_vector", "displacement": "u_vector", "velocity": "v_vector", "temperature": "t_vector", "electric_potential": "p_vector",
         "time_step": "time_step", "time": "current_time"}
    for kind in KINDS:
        for name, cls in sorted(r.solvers[kind].items()):
            if name == "direct":
                continue        # listed finding, see C14
            st = Obj()
            seen = []
            st.update = seen.append
            sv = object.__new__(cls)
            for k, v in T.items():
                setattr(sv, v, object())
            sv.statement = st
            for n in dir(cls):      # the reduction is C07's contract
                if n.startswith("recalculate_"):
                    m = 4 if n.endswith("displacement") else 2
                    setattr(sv, n, lambda m=m: (None,) * m)
            _, e = attempt(sv.iterate)
            if e is not None:
                raise SpecGone(f"iterate of {cls.__name__} cannot be run on its own: {e}")
            if FIELDS[kind]:
                s.true(f"{kind}/{name}: iterate rebuilds the system", len(seen) >= 1)
                for f in FIELDS[kind]:
                    s.true(f"{kind}/{name}: iterate passes the {f}", len(seen) >= 1 and getattr(seen[-1], f, None) is getattr(sv, T[f]))


def lookup(s):
    """every problem class, every registered name in any letter case"""
    r = registry(s)
    P, classes = problem_classes(s)
    ok_kinds, bad = 0, []
    for cls in classes:
        kind = kind_of(P, cls)
        pb = bare(cls)
        if kind is None:
            _, e = attempt(lambda: r.get_by_name(Name("schur"), pb))
            s.true(f"{cls.__name__}: problems of no kind are rejected", e is not None)
            continue
        every = {n for k in KINDS for n in r.solvers[k]}
        for name in sorted(every):
            got, e = attempt(lambda: r.get_by_name(Name(name), pb))
            want = r.solvers[kind].get(name)
            if want is None:
                s.true(f"{cls.__name__}/{name}: a name not registered for {kind} problems is rejected", e is not None)
            else:
                s.true(f"{cls.__name__}/{name}: the {kind} solver", e is None and got is want)
        _, e = attempt(lambda: r.get_by_name(Name(Other()), pb))
        s.true(f"{cls.__name__}: unknown names are rejected", e is not None)
        _, e = attempt(lambda: r.get_by_name(Name(""), pb))
        s.true(f"{cls.__name__}: the empty name is rejected", e is not None)
    for what, ob in (("object", object()), ("None", None)):
        _, e = attempt(lambda: r.get_by_name(Name("schur"), ob))
        s.true(f"{what} is no problem", e is not None)


def registration(s):
    """register(kind, *names): all of the names and nothing else, never twice"""
    r = registry(s)
    for kind in KINDS + ("*",):
        old = {k: dict(v) for k, v in r.solvers.items()}
        new = type("NewSolver", (), {})
        back, e = attempt(lambda: r.register(kind, "First Name", "SECOND")(new))
        s.true(f"{kind}: registration succeeds and returns the solver", e is None and back is new)
        targets = ("static", "quasistatic", "dynamic") if kind == "*" else (kind,)
        for k in KINDS:
            want = dict(old[k])
            if k in targets:
                want.update({"first name": new, "second": new})
            s.true(f"{kind}: afterwards {k} has the names and nothing else changed", r.solvers[k] == want)
        for nm in ("first name", "Second", "FIRST NAME"):
            for k in targets:
                other = type("OtherSolver", (), {})
                before = dict(r.solvers[k])
                _, e = attempt(lambda: r.register(k, nm)(other))
                s.true(f"{kind}: {nm} cannot be registered again for {k}", e is not None)
                s.true(f"{kind}: the first registration of {nm} for {k} stays", r.solvers[k] == before)
        for k in KINDS:
            r.solvers[k].clear()
            r.solvers[k].update(old[k])
    for nm in list(r.solvers["static"])[:3]:
        _, e = attempt(lambda: r.register("static", nm.upper())(type("X", (), {})))
        s.true(f"{nm} cannot be taken over", e is not None and r.solvers["static"][nm].__name__ != "X")


def construct(s):
    """choosing a method on a problem solver builds the registered class with that problem's data; the printed name selects it again"""
    r = registry(s)
    P, classes = problem_classes(s)
    mod = s.load(PS)
    base = s.get(PS, "ProblemSolver")
    for cls in classes:
        kind = kind_of(P, cls)
        if kind is None:
            continue
        for name in sorted(r.solvers[kind]):
            made = []

            def make_fake(reg):
                def init(self, *a, **k):
                    made.append((reg, a, k))
                    self.args = a, k
                return type(reg.__name__, (reg,), {"__init__": init})
            fakes = {n: c for n, c in r.solvers[kind].items()}
            unique = {c: make_fake(c) for c in set(fakes.values())}
            for n, c in fakes.items():
                r.solvers[kind][n] = unique[c]
            try:
                sts = (Obj(), Obj())
                two = "second_statement" in vars(cls) or any("second_statement" in vars(b) for b in cls.__mro__ if b.__name__ != "Problem" and b is not object)
                single = cls.__name__ == "PoissonProblem" or issubclass(cls, P.PoissonProblem)
                law1, law2 = Obj(), Obj()
                user = type("User", (cls,), {"statement": classmethod(lambda c, body: None if single else sts[0]),
                                              "second_statement": classmethod(lambda c, body: sts[1] if two else None)})
                pb = object.__new__(user)
                pb.contact_law, pb.contact_law_2 = law1, law2
                ps = object.__new__(base)
                ps.problem, ps.body, ps.time_step, ps.driving_vector = pb, Obj(), Obj(), Obj()
                ps.step_solver = ps.second_step_solver = None
                label = f"{cls.__name__}/{name}"
                for phase in ("chosen", "refreshed") + tuple(f"chosen after {n}" for n in sorted(fakes) if fakes[n] is not fakes[name]):
                    if phase.startswith("chosen after"):
                        ps.step_solver = ps.second_step_solver = None
                        _, e = attempt(lambda: setattr(ps, "solving_method", Name(phase[len("chosen after "):])))
                        s.true(f"{label}: {phase[13:]} chosen without an error", e is None)
                    del made[:]

                    def act():
                        if phase != "refreshed":
                            ps.solving_method = Name(name)
                        else:
                            ps.refresh_solvers()
                    _, e = attempt(act)
                    s.true(f"{label}: {phase} without an error", e is None)
                    if e is not None:
                        break
                    for which, sv, present, st, law in (("first", ps.step_solver, not single, sts[0], law1), ("second", ps.second_step_solver, two, sts[1], law2)):
                        s.true(f"{label}: {phase}, the {which} solver exists iff the problem has that equation", (sv is not None) == present)
                        if sv is None or not present:
                            continue
                        s.true(f"{label}: {phase}, the {which} solver is the registered one", type(sv) is unique[fakes[name]])
                        want = dict(zip(("statement", "body", "time_step", "contact_law", "driving_vector"), (st, ps.body, ps.time_step, law, ps.driving_vector)))
                        a, k = sv.args
                        got = dict(zip(("statement", "body", "time_step", "contact_law", "driving_vector"), a))
                        got.update(k)
                        for f in want:
                            s.true(f"{label}: {phase}, the {which} solver has the problem's {f}", got.get(f) is want[f])
                    name2, e = attempt(lambda: ps.solving_method)
                    s.true(f"{label}: {phase}, the printed name selects the same method",
                           e is None and isinstance(name2, str) and r.solvers[kind].get(name2.lower()) is unique[fakes[name]])
            finally:
                for n, c in fakes.items():
                    r.solvers[kind][n] = c


def sections(tier):
    return [("registered solvers", table, 60), ("solvers of a kind use its values", kinds_of_solvers, 60), ("lookup", lookup, 60),
            ("registration", registration, 60), ("construction and refresh", construct, 120)]
