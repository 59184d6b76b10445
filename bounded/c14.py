"""Every problem type and method with loads, materials and histories that depend on time: the snapshots against an independent
time loop, any list of output steps, repeated solve() and resumed runs. Without a contact law the inner minimisation is a linear
system, which a stand-in solves exactly; with a contact law repeated runs are compared with each other."""
from bounded.sims import *
from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

TIMED = [k for k in KINDS if k not in ("static", "poisson")]


def run(s, S, n, out=None, **kw):
    a = dict(S.args, n_steps=n, **kw)
    if out is not None:
        a["output_step"] = out
    return list(s.solve(**a))


def same(a, b, what, data, tol=1e-9):
    fa, fb = fields(a), b if isinstance(b, dict) else fields(b)
    close(fa["time"], fb["time"], what + ": time", 1e-12, data=data)
    for k, x in fa.items():
        if k == "time":
            continue
        y = fb[k if k in fb else "w"]
        close(x, y, f"{what}: {k}", tol, scale=max(1.0, np.abs(y).max()), data=data)


def outputs(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return None
    if k == 1:
        return tuple(range(1, n + 1))
    steps = sorted(set(int(x) for x in rng.integers(1, n + 1, int(rng.integers(1, 4)))))
    if k == 2 and rng.random() < 0.5:
        steps = [0] + steps
    elif rng.random() < 0.3:
        steps = sorted(steps + [steps[int(rng.integers(len(steps)))]])     # a step asked for twice
    return steps if rng.random() < 0.5 else tuple(steps)


@case(112, 1100)
def loop(rng, i):
    return trajectories(rng, i)


@case(84, 840)
def special(rng, i):
    """no loads, zero initial values, steps from 1e-4 to 50, soft and stiff materials"""
    return trajectories(rng, i, special=int(rng.integers(6)))


def trajectories(rng, i, special=None):
    kind = TIMED[i % len(TIMED)]
    S = make(rng, kind, METHODS[(i // len(TIMED)) % 2], special=special)
    n = int(rng.integers(1, 8))
    out = outputs(rng, n)
    data = dict(kind=kind, method=S.method, dt=S.dt, n=n, out=str(out), pts=S.pts.tolist(), el=S.el.tolist())
    options = dict(method="Powell", maxiter=7 + i) if i % 2 else {}
    with exact_minimiser() as log:
        s = S.new()
        res = run(s, S, n, out, **options)
        given = list(log)
        steps = list(out) if out else [n]
        need(len(res) == len(steps), f"{len(res)} snapshots instead of {len(steps)}", data)
        want = trajectory(S, s.body.mesh, n)
        handed_over(given, want[: max(steps)], options, data)
        for r, k in zip(res, steps):
            close(r.time, k * S.dt, f"time of snapshot {k}", 1e-9, data=data)
            w = dict(want[k], time=k * S.dt)
            if k == 0:      # displaced positions follow the first update (C13)
                w["displaced_nodes"] = r.displaced_nodes
            same(r, w, f"{kind}/{S.method} snapshot {k}", data, 1e-7)
        again = run(s, S, n, out)
        for a, b in zip(again, res):
            same(a, b, f"{kind}/{S.method} second solve()", data, 1e-10)
        if kind == "wave" and n >= 2:
            m = int(rng.integers(1, n))
            first = run(S.new(), S, m)
            other = run(S.new() if i % 4 < 2 else s, S, n - m, None, state=first[-1])
            same(other[-1], res[-1] if steps[-1] == n else dict(want[n], time=n * S.dt), "resumed run", data, 1e-7)
    return f"{kind}/{S.method} n={n} out={out}"


@case(9, 40)
def left_out(rng, i):
    """initial values a problem leaves out are zero: the run equals one with explicit zeros"""
    kind = KINDS[i % len(KINDS)]
    if kind == "poisson":
        return "nothing to give"
    S = make(rng, kind)
    cls = type(S.problem)
    given = {k: getattr(cls, k) for k in S.args}
    for k, f in given.items():
        x = rng.normal(size=(7, 2))
        r = np.asarray(f(x))
        want = np.zeros((7, 2) if k in ("initial_displacement", "initial_velocity", "initial_absement") else 7)
        need(r.shape == want.shape and (r == want).all(), f"{kind}: {k} that is left out is {r.tolist()}", dict(kind=kind))
    return kind


def handed_over(log, want, options, data):
    """every solution starts from the old values of its step, with the options given to solve()"""
    k = 0
    flat = lambda w, f: w[f].T.ravel()
    near = lambda a, b: a.shape == b.shape and np.abs(a - b).max(initial=0) <= 1e-7 * max(1.0, np.abs(b).max(initial=0))
    for v, u, kw in log:
        need(all(kw.get(o) == x for o, x in options.items()), f"the options given to solve() do not reach the solver ({kw})", data)
        while k < len(want) and not (near(v, flat(want[k], "velocity")) and near(u, flat(want[k], "displacement"))):
            k += 1
        need(k < len(want), "a solver was handed old values that belong to no step, or not in order", data)


@case(10, 80)
def different_objects(rng, i):
    """a solver object used for other initial values before, and two objects used in turns"""
    kind = TIMED[i % len(TIMED)]
    S = make(rng, kind)
    S2 = make(rng, TIMED[(i + 3) % len(TIMED)])
    with exact_minimiser():
        fresh = run(S.new(), S, 3)
        s, s2 = S.new(), S2.new()
        args = S.args
        S.args = {k: (lambda f: lambda x: f(x) * 1.7 + 0.2 * (0 if kind == "wave" else 1))(v) for k, v in args.items()}
        run(s, S, 2)
        S.args = args
        run(s2, S2, 2)
        again = run(s, S, 3)
    same(again[-1], fresh[-1], f"{kind}/{S.method} after other runs", dict(kind=kind, method=S.method), 1e-10)
    return f"{kind}/{S.method}"


@case(6, 20, timeout=200)
def with_contact(rng, i):
    """with a contact law: solving again, and reporting more steps, changes nothing"""
    kind = ["quasistatic", "dynamic", "relaxation"][i % 3]
    S = make(rng, kind, METHODS[(i // 3) % 2], law=make_slope_contact_law(20.0))
    s = S.new()
    a = run(s, S, 2)
    b = run(s, S, 2)
    c = run(S.new(), S, 2, (1, 2))
    need(len(c) == 2, "two snapshots")
    same(b[-1], a[-1], f"{kind}/{S.method} second solve()", None, 1e-8)
    same(c[-1], a[-1], f"{kind}/{S.method} more snapshots", None, 1e-8)
    return f"{kind}/{S.method}"


@case(4, 12)
def direct_waves(rng, i):
    """the direct method on a dynamic problem"""
    S = make(rng, "wave", "direct")
    s = S.new()
    n = 2 + i % 3
    res = run(s, S, n, tuple(range(1, n + 1)))
    want = trajectory(S, s.body.mesh, n)
    need(len(res) == n, "snapshots")
    for k in range(n):
        close(res[k].time, (k + 1) * S.dt, "direct: time", 1e-12)
        close(res[k].displacement, S.u0(s.body.mesh.nodes) + sum(S.dt * r.velocity for r in res[: k + 1]), "direct: displacement", 1e-9)
        close(fields(res[k])["displacement"], want[k + 1]["displacement"], f"direct: step {k + 1} is not solved with the system of the present values", 1e-7,
              key="direct-dynamic-never-rebuilds")
    return "direct"


@case(8, 60)
def static(rng, i):
    """one step, at its own initial guess, repeatable"""
    S = make(rng, ["static", "poisson"][i % 2], METHODS[(i // 2) % 2])
    with exact_minimiser():
        s = S.new()
        a = s.solve(**S.args)
        b = s.solve(**S.args)
        c = S.new().solve(**S.args)
    O = operators(S, s.body.mesh)
    f = load(S, s.body.mesh, 0)
    if S.kind == "static":
        want = linear(O.E, f, prescribed(s.body.mesh, 2)).reshape(2, -1).T
        get = lambda x: x.displacement
    else:
        want = linear(O.L, f, prescribed(s.body.mesh, 1))
        get = lambda x: np.ravel(x.temperature)
    for x, w in ((a, "solution"), (b, "second solve()"), (c, "fresh object")):
        close(get(x), want, f"{S.kind}/{S.method} {w}", 1e-7, scale=max(1, np.abs(want).max()))
    return f"{S.kind}/{S.method}"


@case(4, 20)
def three_dimensions(rng, i):
    """coupled problems on three-dimensional meshes with odd and even numbers of nodes"""
    kind = "temperature"
    pts = np.vstack([np.eye(4)[:, :3], [[1, 1, 1.0]], [[1, 1, -0.7]]])[: 5 + i % 2] + rng.uniform(-0.1, 0.1, (5 + i % 2, 3))
    el = np.array([[0, 1, 2, 3], [0, 1, 2, 4], [0, 1, 2, 5]][: 2 + i % 2])
    a = float(np.sort(pts[:, 2])[0]) + 1e-9
    S = make(rng, kind, "global", mesh=(Raw(pts, el), BoundariesDescription(contact=lambda x: x[2] <= a)))
    c = rng.normal(size=(2, 3))
    p = S.problem
    p.__class__ = type("P3", (type(p),), dict(inner_forces=staticmethod(lambda x, t=None: c[0]), outer_forces=staticmethod(lambda x, t=None: c[1])))
    p.thermal_expansion, p.thermal_conductivity = np.eye(3) * 0.3, np.eye(3)
    args = dict(initial_displacement=lambda x: 0.1 * x, initial_velocity=lambda x: x[:, ::-1] * 0.2, initial_temperature=lambda x: x[:, 0])
    with exact_minimiser():
        g = list(S.cls(p, "global").solve(n_steps=2, output_step=(1, 2), **args))
        h = list(S.cls(p, "schur").solve(n_steps=2, output_step=(1, 2), **args))
    need(len(g) == len(h) == 2, "snapshots")
    for k in range(2):
        close(g[k].time, (k + 1) * S.dt, "time", 1e-12)
        same(g[k], h[k], f"3-D {kind}, step {k + 1}: the two methods", dict(pts=pts.tolist()), 1e-6)
    return f"3-D {kind} {len(pts)} nodes"
