"""The coupled step with stub solvers that return arbitrary sequences (converging, oscillating, slowly drifting, the same buffer
every time, Schur solvers that need their loads rebuilt), and with the real solvers of every coupled problem."""
from bounded.sims import *
from conmech.solvers.optimization.schur_complement import SchurComplementOptimization

TOL = 1e-3


class Rec:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def update(self, var):
        g = lambda a: None if a is None else np.array(a, dtype=float).reshape(-1).copy()
        self.log.append((self.name, "update", dict(u=g(var.displacement), v=g(var.velocity), T=g(var.temperature), p=g(var.electric_potential), dt=var.time_step, t=var.time)))


def stub(log, name, seq, n, dim, dt, schur, reuse, shape):
    def solve(guess, **kw):
        k = sum(1 for e in log if e[0] == name and e[1] == "solve")
        if schur:
            last = [e[1] for e in log if e[0] == name]
            need(last and last[-1] == "rebuild", f"{name}: solved without rebuilding the reduced load")
        x = seq[min(k, len(seq) - 1)].copy()
        log.append((name, "solve", x.copy()))
        if reuse:
            if buf[0] is None:
                buf[0] = x.reshape(shape)
            else:
                buf[0][...] = x.reshape(shape)
            return buf[0]
        return x.reshape(shape)
    buf = [None]
    base = SchurComplementOptimization if schur else object

    class S(base):
        def __init__(self):
            self.statement = Rec(log, name)

        def recalculate_forces(self):
            log.append((name, "rebuild", None))
            return object(), object()
    s = S()
    s.time_step, s.current_time = dt, 0.7
    s.solve = solve
    return s


def sequence(rng, size, style):
    x = rng.normal(size=size)
    out = []
    for k in range(14):
        if style == "converging":
            out.append(x + rng.normal(size=size) * 10.0 ** (-k - 1))
        elif style == "fast":
            out.append(x + (rng.normal(size=size) if k < 1 else 0))
        elif style == "oscillating":
            out.append(x * (-1) ** k)
        elif style == "drifting":
            out.append(x + 0.9e-3 * k / np.sqrt(size))
        elif style == "late":
            out.append(x * (1 if k > 6 else k))
        elif style == "zero":
            out.append(0 * x)
        elif style == "tiny":
            out.append(x * 1e-6 * (-1) ** k)
        elif style == "growing from zero":
            out.append(x * (0 if k < 2 else 1 + 0.5 ** k))
        elif style == "huge":
            out.append(x * 1e200 * (-1) ** k)
        else:
            out.append(rng.normal(size=size))
    return out


STYLES = ["converging", "fast", "oscillating", "drifting", "late", "huge", "random", "zero", "tiny", "growing from zero"]


@case(330, 3300)
def step(rng, i):
    n, dim, dt = int(rng.integers(2, 6)), 2, float(rng.uniform(0.01, 0.5))
    log = []
    st = STYLES[i % len(STYLES)], STYLES[int(rng.integers(len(STYLES)))] if i % 3 else STYLES[i % len(STYLES)]
    sv, sw = sequence(rng, dim * n, st[0]), sequence(rng, n, st[1])
    schur = i % 4 == 1
    reuse = i % 5 == 2
    shape = (-1,)
    P = ps.ProblemSolver.__new__(ps.TemperatureTimeDependentSolver)
    P.step_solver, P.second_step_solver = stub(log, "mech", sv, n, dim, dt, schur, reuse, shape), stub(log, "second", sw, n, dim, dt, schur, reuse, shape)
    u0, v0, T0, p0 = rng.normal(size=dim * n), rng.normal(size=dim * n), rng.normal(size=n), rng.normal(size=n)
    for s in (P.step_solver, P.second_step_solver):
        s.u_vector, s.v_vector, s.t_vector, s.p_vector = u0.copy(), v0.copy(), T0.copy(), p0.copy()
    x0, w0 = rng.normal(size=(dim, n)), rng.normal(size=n)
    if i % 3 == 2:
        # started from rest
        pick = int(rng.integers(5))
        x0 = 0 * x0 if pick in (0, 4) else x0
        w0 = 0 * w0 if pick in (1, 4) else w0
        dt = [1e-5, 1.0, 20.0, dt][int(rng.integers(4))]
        for s in (P.step_solver, P.second_step_solver):
            s.time_step = dt
            for nm in ("u_vector", "v_vector", "t_vector", "p_vector"):
                if rng.random() < 0.3:
                    getattr(s, nm)[:] = 0
        for nm in ("u_vector", "v_vector", "t_vector", "p_vector"):
            getattr(P.second_step_solver, nm)[:] = getattr(P.step_solver, nm)
        u0, v0, T0, p0 = [getattr(P.step_solver, nm).copy() for nm in ("u_vector", "v_vector", "t_vector", "p_vector")]
    data = dict(styles=st, n=n, dt=dt, schur=schur, reuse=reuse)
    a, b = P.find_solution_uzawa(x0.copy(), w0.copy())
    up = [e for e in log if e[1] == "update"]
    so = [e for e in log if e[1] == "solve"]
    m = len(so) // 2
    need([e[:2] for e in log if e[1] != "rebuild"] == [("mech", "update"), ("mech", "solve"), ("second", "update"), ("second", "solve")] * m, "order of the alternation", data)
    need(5 <= m <= 10, f"{m} alternations", data)
    vs = [x0.reshape(-1)] + [e[2] for e in so if e[0] == "mech"]
    ws = [w0] + [e[2] for e in so if e[0] == "second"]
    with np.errstate(all="ignore"):
        diff = [np.sqrt(np.linalg.norm(vs[k + 1] - vs[k]) ** 2 + np.linalg.norm(ws[k + 1] - ws[k]) ** 2) for k in range(m)]
    if m < 10:
        need(diff[-1] <= TOL * (1 + 1e-9), f"stopped after {m} alternations while the iterates differ by {diff[-1]}", data)
    for k in range(m):
        e = up[2 * k][2]
        for nm, want in (("u", u0), ("v", v0), ("T", ws[k]), ("p", ws[k])):
            need(e[nm] is not None, f"alternation {k + 1}: mechanical system without {nm}", data)
            close(e[nm], want, f"alternation {k + 1}: {nm} of the mechanical system", 1e-12, scale=biggest(want), data=data)
        need(e["dt"] == dt and e["t"] == 0.7, f"alternation {k + 1}: time or time step of the mechanical system", data)
        e = up[2 * k + 1][2]
        for nm, want in (("u", u0 + dt * vs[k + 1]), ("v", vs[k + 1]), ("T", T0), ("p", p0)):
            need(e[nm] is not None, f"alternation {k + 1}: second system without {nm}", data)
            close(e[nm], want, f"alternation {k + 1}: {nm} of the second system", 1e-12, scale=biggest(want, u0 if nm == "u" else 0, dt * vs[k + 1] if nm == "u" else 0), data=data)
        need(e["dt"] == dt, f"alternation {k + 1}: time step of the second system", data)
    close(np.ravel(a), vs[-1], "returned velocity", 1e-14, scale=biggest(vs[-1]), data=data)
    close(np.ravel(b), ws[-1], "returned field", 1e-14, scale=biggest(ws[-1]), data=data)
    for s in (P.step_solver, P.second_step_solver):
        for nm, got, want in (("velocity", s.v_vector, vs[-1]), ("displacement", s.u_vector, u0 + dt * vs[-1]), ("temperature", s.t_vector, ws[-1]), ("potential", s.p_vector, ws[-1])):
            close(np.ravel(got), want, f"{nm} held by a solver afterwards", 1e-12, scale=biggest(want, u0 if nm == "displacement" else 0), data=data)
    return f"{st} {m} alternations schur={schur}"


@case(36, 180)
def real(rng, i):
    """every coupled problem with the real systems: the trajectory of the alternation from first principles"""
    S = make(rng, ["temperature", "piezo_q", "piezo_d"][i % 3], METHODS[(i // 3) % 2], special=(i // 6) % 6 if i % 12 >= 6 else None)
    n = 1 + i % 3
    with exact_minimiser():
        s = S.new()
        res = list(s.solve(n_steps=n, output_step=tuple(range(1, n + 1)), **S.args))
    want = trajectory(S, s.body.mesh, n)
    for k, r in enumerate(res):
        f = fields(r)
        w = f.get("temperature", f.get("electric_potential"))
        data = dict(kind=S.kind, method=S.method, step=k + 1)
        close(f["velocity"], want[k + 1]["velocity"], "velocity", 1e-7, data=data)
        close(f["displacement"], want[k + 1]["displacement"], "displacement", 1e-7, data=data)
        close(w, want[k + 1]["w"], "coupled field", 1e-7, data=data)
    for sv in (s.step_solver, s.second_step_solver):
        close(sv.u_vector, stack(res[-1].displacement), "displacement held by a solver", 1e-9)
        close(sv.v_vector, stack(res[-1].velocity), "velocity held by a solver", 1e-9)
    return f"{S.kind}/{S.method} {n} steps"
