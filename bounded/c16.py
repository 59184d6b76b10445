"""All problem classes of the library and classes derived from them, every registered name in many spellings, unknown names and
kinds; real problem solvers built with every method, changed to another method and refreshed."""
import inspect
import itertools

from bounded.sims import *
from conmech.solvers import Solver, SolversRegistry, Direct, GlobalOptimization, SchurComplementOptimization

METHOD = {"schur": SchurComplementOptimization, "schur complement": SchurComplementOptimization, "schur complement method": SchurComplementOptimization,
          "global": GlobalOptimization, "global optimization": GlobalOptimization, "direct": Direct}
WHERE = {"static": 6, "quasistatic": 5, "quasistatic relaxation": 5, "dynamic": 6}


def kind_of(c):
    for b, k in ((pr.RelaxationQuasistaticProblem, "quasistatic relaxation"), (pr.StaticProblem, "static"), (pr.QuasistaticProblem, "quasistatic"), (pr.DynamicProblem, "dynamic")):
        if issubclass(c, b):
            return k
    return None


CLASSES = sorted({c for c in vars(pr).values() if inspect.isclass(c) and issubclass(c, pr.Problem)}, key=lambda c: c.__name__)


def spellings(rng, name):
    yield name
    yield name.upper()
    yield name.title()
    yield "".join(ch.upper() if rng.random() < 0.5 else ch for ch in name)


def unknown_names(R):
    known = {n.lower() for k in R.solvers for n in R.solvers[k]}
    out = {"", " ", "schurr", "optimization", "none", "direct solver", "method", "0", "-"}
    for n in known:
        for sep in (" ", "-", "_", ".", "/", ",", ":", "+", "\n", "\t"):
            out |= {n + sep, sep + n, n + sep + "x", "x" + sep + n, n + sep + "2", n + sep + "method", n + sep + "optimization", n.replace(" ", sep), n + sep + n}
        out |= {n[:-1], n[1:], n[:3], n[:1], n[::-1], n + "s", n + "1", n * 2, n.replace("o", "0"), n.replace(" ", ""), n.replace(" ", "  "), f"'{n}'", f"<{n}>"}
    return sorted(x for x in out if x.lower() not in known)


@case(len(CLASSES), len(CLASSES))
def lookup(rng, i):
    base = CLASSES[i % len(CLASSES)]
    R = SolversRegistry
    for cls in (base, type("User", (base,), {}), type("Mixed", (type("Mixin", (), {}), base), {})):
        p = object.__new__(cls)
        kind = kind_of(cls)
        for name in sorted(METHOD):
            for nm in spellings(rng, name):
                try:
                    got = R.get_by_name(nm, p)
                except Exception as e:     # noqa: BLE001
                    need(kind is None or (name == "direct" and kind.startswith("quasistatic")), f"{cls.__name__}: {nm!r} rejected: {e!r}")
                    continue
                need(kind is not None, f"{cls.__name__} of no kind got {got.__name__}")
                need(name in R.solvers[kind], f"{nm!r} is not registered for {kind} problems but {got.__name__} was found")
                need(got is R.solvers[kind][name], f"{cls.__name__}/{nm!r}: {got.__name__} is not the {kind} solver")
                need(issubclass(got, METHOD[name]), f"{cls.__name__}/{nm!r}: {got.__name__}")
                if kind == "quasistatic relaxation":
                    need(got is not R.solvers["quasistatic"][name], f"{cls.__name__}/{nm!r}: plain quasistatic solver")
        for nm in unknown_names(R):
            try:
                got = R.get_by_name(nm, p)
            except Exception:      # noqa: BLE001
                continue
            raise Failure(f"{cls.__name__}: unknown name {nm!r} gave {got.__name__}")
    for ob in (object(), None, "static"):
        try:
            R.get_by_name("schur", ob)
        except Exception:      # noqa: BLE001
            continue
        raise Failure(f"{ob!r} was accepted as a problem")
    return base.__name__


@case(12, 40)
def registration(rng, i):
    R = SolversRegistry
    kinds = ("static", "quasistatic", "quasistatic relaxation", "dynamic")
    need(set(R.solvers) == set(kinds), "kinds of problems")
    old = {k: dict(v) for k, v in R.solvers.items()}
    kind = (kinds + ("*",))[i % 5]
    try:
        new = type("New", (Solver,), {})
        need(R.register(kind, "My Method", "OTHER")(new) is new, "register returns the solver")
        for k in kinds:
            hit = k == kind or (kind == "*" and k != "quasistatic relaxation")
            want = dict(old[k], **({"my method": new, "other": new} if hit else {}))
            need(R.solvers[k] == want, f"registration for {kind} changed {k} wrongly")
            for nm in list(want):
                before = dict(R.solvers[k])
                try:
                    R.register(k, nm.title())(type("Thief", (Solver,), {}))
                except Exception:      # noqa: BLE001
                    need(R.solvers[k] == before, "failed registration left a trace")
                    continue
                raise Failure(f"{nm!r} could be registered twice for {k}")
    finally:
        for k in kinds:
            R.solvers[k].clear()
            R.solvers[k].update(old[k])
    return kind


@case(27, 120)
def built(rng, i):
    """real problem solvers: the chosen solver, its data, refresh and change of method"""
    S = make(rng, KINDS[i % len(KINDS)])
    base = kind_of(type(S.problem))
    names = sorted(SolversRegistry.solvers[base])
    law = getattr(S.problem, "contact_law", None)
    for name in names:
        if name == "direct" and S.kind in ("temperature", "piezo_d"):
            continue
        nm = list(spellings(rng, name))[int(rng.integers(4))]
        s = S.cls(S.problem, nm)
        first = names[int(rng.integers(len(names)))]
        if not (first == "direct" and S.kind in ("temperature", "piezo_d")):
            s = S.cls(S.problem, first)
            s.solving_method = nm
        for phase in range(3):
            if phase == 1:
                s.refresh_solvers()
            if phase == 2:
                s.solving_method = s.solving_method
            want = SolversRegistry.solvers[base][name]
            pair = (s.step_solver, s.second_step_solver)
            need((pair[0] is None, pair[1] is None) == (S.kind == "poisson", S.kind not in ("poisson", "temperature", "piezo_q", "piezo_d")), f"{S.kind}/{nm}: which solvers exist")
            for sv in pair:
                if sv is None:
                    continue
                need(type(sv) is want, f"{S.kind}/{nm!r} phase {phase}: {type(sv).__name__} instead of {want.__name__}")
                need(sv.body is s.body and sv.time_step == (S.dt if S.kind not in ("static", "poisson") else 0), f"{S.kind}/{nm!r}: body or time step")
                need(sv.driving_vector == (S.kind == "wave"), f"{S.kind}/{nm!r}: storage of one-component problems")
            need(METHOD.get(s.solving_method.lower()) is METHOD[name], f"{S.kind}/{nm!r}: printed as {s.solving_method}")
    return f"{S.kind}: {names}"
