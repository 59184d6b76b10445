"""C15: one coupled step with arbitrary solver answers; the alternation is unrolled completely (it ends after at most ten rounds)."""
from contracts.lib import *

PSM = "conmech.simulations.problem_solver"
FUNCTIONS = ["ProblemSolver.find_solution_uzawa"]
ASSUMPTIONS = ["callee contracts: statement.update rebuilds a system from the values it receives (C05), recalculate_forces of a reduced solver rebuilds its load (C07), solve returns a vector of the right size, "
               "fresh or always in the same buffer", "answers are finite numbers"]
TOL = F(1, 1000)
NAMES = dict(displacement="u0", velocity="v0", temperature="th0", electric_potential="ph0")
HELD = dict(u_vector="u0", v_vector="v0", t_vector="th0", p_vector="ph0")


class W:
    def __init__(self, s, d, schur, reuse):
        self.s, self.d, self.n = s, d, ivar("n")
        ctx().assume(self.n >= 1)
        self.dt, self.t = var("dt"), var("t")
        ctx().assume(self.dt > 0)
        self.log = []
        self.options = dict(method=object())
        m = s.load(PSM)
        base = s.get("conmech.solvers.optimization.schur_complement", "SchurComplementOptimization") if schur else object
        w = self

        class Statement:
            def __init__(q, who):
                q.who = who

            def update(q, v):
                rd = {}
                for f in NAMES:
                    a = getattr(v, f, None)
                    rd[f] = None if a is None else a.reshape(-1).copy()
                w.log.append((q.who, "update", rd, v.time_step, getattr(v, "time", None)))

        class Stub(base):
            def __init__(q, who, size, fn):
                q.who, q.size, q.fn, q.k, q.buf = who, size, fn, 0, None
                q.statement = Statement(who)
                q.time_step, q.current_time = w.dt, w.t
                for nm, src in HELD.items():
                    setattr(q, nm, A.symbolic(src, (w.d * w.n if nm in ("u_vector", "v_vector") else w.n,)))

            def recalculate_forces(q):
                if not schur:
                    raise Unsupported("recalculate_forces of a solver without reduced load")
                w.log.append((q.who, "rebuild"))
                return ("nf", len(w.log)), ("ff", len(w.log))

            def solve(q, guess, **kw):
                q.k += 1
                k = q.k
                if k > 40:
                    raise Unsupported("the alternation does not end")
                s.true("the options of the step reach the solver", all(kw.get(o) is x for o, x in w.options.items()))
                w.log.append((q.who, "solve", k, getattr(q, "node_forces_", None), getattr(q, "forces_free", None)))
                a = A.make((q.size,), lambda ix: app(q.fn, (lift(k), lift(ix[0]))))
                if not reuse:
                    return a
                if q.buf is None:
                    q.buf = a
                else:
                    q.buf[:] = a
                return q.buf

            def __getattr__(q, n):
                if n.startswith("__") or n in ("node_forces_", "forces_free"):
                    raise AttributeError(n)
                raise Unsupported(f"the code uses {n} of a solver")
        self.one, self.two = Stub("mechanical", d * self.n, "VS"), Stub("second", self.n, "WS")
        cls = s.get(PSM, "ProblemSolver")
        ps = object.__new__(cls)
        ps.step_solver, ps.second_step_solver = self.one, self.two
        self.ps, self.schur = ps, schur
        self.guess, self.guess_t = A.symbolic("vguess", (d, self.n)), A.symbolic("wguess", (self.n,))

    def v(self, k):
        """velocity after alternation k, by flat index"""
        if k == 0:
            return None
        return lambda i: app("VS", (lift(k), lift(i)))

    def w(self, k):
        return (lambda i: app("WS", (lift(k), lift(i)))) if k else (lambda i: app("wguess", (lift(i),)))


def flat(s, label, a, want, size):
    if a is None:
        s.true(label + ": present", False)
        return
    s.array_eq(label, a.reshape(-1), lambda ix: want(ix[0]), shape=(size,), fn="ProblemSolver.find_solution_uzawa")


def step(s, d, schur, reuse):
    def run():
        w = W(s, d, schur, reuse)
        r = w.ps.find_solution_uzawa(w.guess, w.guess_t, **w.options)
        # all held vectors as they are at the end of the step
        held = [{nm: getattr(q, nm).reshape(-1).copy() for nm in HELD} for q in (w.one, w.two)]
        return w, r, held
    paths = explore(run)
    s.no_exception("coupled step", paths)
    seen = set()
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        w, (vel, sec), held = p.value
        n, dn = w.n, w.d * w.n
        m = w.one.k
        seen.add(m)
        s.true(f"{m} alternations: between five and ten", 5 <= m <= 10 and w.two.k == m)
        if not (1 <= m <= 10 and w.two.k == m):
            continue
        want = []
        for who in ("mechanical", "second"):
            want += [(who, "update")] + ([(who, "rebuild")] if schur else []) + [(who, "solve")]
        ev = [e[:2] for e in w.log]
        s.true(f"{m} alternations: each builds and solves the mechanical system, then the second one", ev == want * m)
        if ev != want * m:
            continue
        per = len(want)
        u0 = lambda i: app("u0", (lift(i),))
        for k in range(1, m + 1):
            g = w.log[(k - 1) * per:k * per]
            mech, second = g[0], g[per // 2]
            lab = f"{m} alternations, {k}"
            vk, wk = w.v(k), w.w(k - 1)
            flat(s, f"{lab}: mechanical system, old displacement", mech[2]["displacement"], u0, dn)
            flat(s, f"{lab}: mechanical system, old velocity", mech[2]["velocity"], lambda i: app("v0", (lift(i),)), dn)
            flat(s, f"{lab}: mechanical system, latest coupled field (temperature)", mech[2]["temperature"], wk, n)
            flat(s, f"{lab}: mechanical system, latest coupled field (potential)", mech[2]["electric_potential"], wk, n)
            s.eq(f"{lab}: mechanical system, time step", mech[3], w.dt)
            s.eq(f"{lab}: mechanical system, time", mech[4] if mech[4] is not None else F(-1), w.t)
            flat(s, f"{lab}: second system, displacement implied by the latest velocity", second[2]["displacement"], lambda i: u0(i) + w.dt * vk(i), dn)
            flat(s, f"{lab}: second system, latest velocity", second[2]["velocity"], vk, dn)
            flat(s, f"{lab}: second system, old temperature", second[2]["temperature"], lambda i: app("th0", (lift(i),)), n)
            flat(s, f"{lab}: second system, old potential", second[2]["electric_potential"], lambda i: app("ph0", (lift(i),)), n)
            s.eq(f"{lab}: second system, time step", second[3], w.dt)
            if schur:
                for q, name in ((g[1:3], "mechanical"), (g[per // 2 + 1:], "second")):
                    nf, ff = q[-1][3], q[-1][4]
                    at = (k - 1) * per + (2 if name == "mechanical" else per // 2 + 2)
                    s.true(f"{lab}: the {name} solver uses the load just rebuilt", nf == ("nf", at) and ff == ("ff", at))
        if m < 10:
            i, j = tm.fresh("i", True), tm.fresh("j", True)
            dv = w.v(m)(i) - w.v(m - 1)(i)
            dw = w.w(m)(j) - w.w(m - 1)(j)
            sq = tm.mk_sum(i, ZERO, lift(dn), dv * dv) + tm.mk_sum(j, ZERO, lift(n), dw * dw)
            s.true(f"{m} alternations: stops early only when the iterates differ by at most the tolerance", tm.sqrt(sq) <= TOL, fn="ProblemSolver.find_solution_uzawa")
        flat(s, f"{m} alternations: returned velocity is the last one", vel, w.v(m), dn)
        flat(s, f"{m} alternations: returned field is the last one", sec, w.w(m), n)
        for q, h in zip(("first", "second"), held):
            flat(s, f"{m} alternations: {q} solver holds the velocity", h["v_vector"], w.v(m), dn)
            flat(s, f"{m} alternations: {q} solver holds the displacement", h["u_vector"], lambda i: u0(i) + w.dt * w.v(m)(i), dn)
            flat(s, f"{m} alternations: {q} solver holds the temperature", h["t_vector"], w.w(m), n)
            flat(s, f"{m} alternations: {q} solver holds the potential", h["p_vector"], w.w(m), n)
        s.array_eq(f"{m} alternations: initial velocity not changed", w.guess, lambda ix: app("vguess", tuple(lift(i) for i in ix)))
        s.array_eq(f"{m} alternations: initial field not changed", w.guess_t, lambda ix: app("wguess", (lift(ix[0]),)))
        s.defs(f"{m} alternations: indices in range")
    s.nonvacuous()


def sections(tier):
    out = []
    for d in (2, 3):
        for schur in (False, True):
            for reuse in (False, True):
                out.append((f"coupled step [{d}d{', reduced solvers' if schur else ''}{', same buffer' if reuse else ''}]", (lambda s, a=(d, schur, reuse): step(s, *a)), 250))
    return out
