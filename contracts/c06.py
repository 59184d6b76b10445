"""C06: Dirichlet elimination."""
from contracts.lib import *

FUNCTIONS = ["Statement.apply_dirichlet_condition", "Statement.find_dirichlet_conditions", "Statement.update", "Boundaries.get_all_boundary_indices", "Solver.solve"]
ASSUMPTIONS = ["precondition: node indices of a condition are sorted and distinct; overlapping conditions prescribe the same value at a shared node"]
BOUNDED_ONLY = ["get_all_boundary_indices for index arrays: proved for arrays of 1 to 4 (thorough 6) symbolic sorted indices, not for every length"]
ST = "conmech.dynamics.statement"


def imposed(S, N):
    """ghost: the system (L0, r0) with the values cv imposed on the unknowns satisfying S"""
    def lhs(i, j):
        i, j = lift(i), lift(j)
        return S(i) * tm.ind_eq(i - j) + (ONE - S(i)) * (ONE - S(j)) * app("L0", (i, j))

    def rhs(i):
        i = lift(i)
        q = tm.fresh("q", True)
        return S(i) * app("cv", (i,)) + (ONE - S(i)) * (app("r0", (i,)) - tm.mk_sum(q, ZERO, N, S(q) * app("L0", (i, q)) * app("cv", (q,))))
    return lhs, rhs


def between(x, lo, hi):
    return as01((lift(x) >= lo) & (lift(x) < hi))


def statement(s, dims, conds, n, boundaries_extra=None):
    St = s.get(ST, "Statement")
    M = s.load("conmech.struct.stiffness_matrix")
    bnd = dict(conds)
    st = St(Obj(mesh=Obj(nodes_count=n, boundaries=bnd_obj(s, bnd))), (dims, dims))
    return st, {1: M.SM1, 2: M.SM2, 3: M.SM3}[dims]


def bnd_obj(s, bnd):
    Bd = s.get("conmech.mesh.boundaries", "Boundaries")
    o = object.__new__(Bd)
    o.boundaries = bnd
    return o


def step(s, dims):
    """invariant step: in a system where an arbitrary set S of unknowns is already imposed, imposing one
    more condition on nodes [p, q) of every component imposes exactly S together with those unknowns"""
    def run():
        n, p, q = ivar("n"), ivar("p"), ivar("q")
        c = ctx()
        c.assume(n >= 1, p >= 0, p < q, q <= n)
        N = dims * n
        S0 = lambda x: tm.pred("S", (lift(x),)).t if isinstance(tm.pred("S", (lift(x),)), B) else tm.pred("S", (lift(x),))
        lhs, rhs = imposed(S0, N)
        L = A.make((N, N), lambda ix: lhs(*ix))
        r = A.make((N,), lambda ix: rhs(*ix))
        # the same value is prescribed in every component: cv(k*n+p+x) = cd(x)
        cd = A.make((q - p,), lambda ix: app("cd", (lift(ix[0]),)))
        solve.FUN_FACTS.pop("cv", None)
        st, K = statement(s, dims, {"dirichlet": Obj(node_indices=slice(p, q), node_condition=cd, node_count=q - p)}, n)
        st.left_hand_side = K(L)
        st.right_hand_side = r
        st.apply_dirichlet_condition()
        return n, p, q, N, S0, st, cd
    paths = explore(run)
    s.no_exception("apply_dirichlet_condition", paths)
    for pth in paths:
        if pth.exc is not None:
            continue
        C.CTX[0] = pth.ctx
        n, p, q, N, S0, st, cd = pth.value

        def inblock(x):
            t = ONE
            for k in range(dims):
                t = t * (ONE - between(x, k * n + p, k * n + q))
            return ONE - t
        S1 = lambda x: ONE - (ONE - S0(x)) * (ONE - inblock(lift(x)))
        lhs, rhs = imposed(S1, N)

        # cv at block unknowns is cd: rewrite
        def withcd(t):
            def f(x):
                r = app("cv", (x,))
                for k in range(dims):
                    r = r + between(x, k * n + p, k * n + q) * (app("cd", (x - k * n - p,)) - app("cv", (x,)))
                return r
            return tm.subst_fun(t, "cv", f)
        old = pth.ctx.facts
        x, y = ivar("x"), ivar("y")
        base = old.extend(x >= 0, x < N, y >= 0, y < N)
        pth.ctx.facts = base
        # agreement of overlapping conditions: values already used equal the new ones on S0 and the block
        got = st.left_hand_side.data.get((x, y))
        s.eq("left hand side", got, lhs(x, y), base, "apply_dirichlet_condition")
        # S0 and the block are disjoint for the load (overlaps are treated in the next section)
        gr = st.right_hand_side.get((x,))
        dis = lambda t: tm.subst_fun(t, "S", lambda z: tm.as01(tm.pred("S", (z,))) * (ONE - inblock(z)))
        s.eq("right hand side", dis(withcd(gr)), dis(withcd(rhs(x))), base, "apply_dirichlet_condition")
        s.array_eq("frame: prescribed values unchanged", cd, lambda ix: app("cd", (lift(ix[0]),)), facts=old)
        pth.ctx.facts = old
        s.defs("indices are in range")
    s.nonvacuous()


def system(s, dims, conds_of, label, second_name=None):
    """an arbitrary system with one or several conditions: complete postcondition"""
    def run():
        n = ivar("n")
        ctx().assume(n >= 1)
        N = dims * n
        L, r = A.symbolic("L0", (N, N)), A.symbolic("r0", (N,))
        conds, S, val = conds_of(n)
        st, K = statement(s, dims, conds, n)
        if second_name:
            st.dirichlet_cond_name = second_name
        st.left_hand_side = K(L)
        st.right_hand_side = r
        st.apply_dirichlet_condition()
        return n, N, S, val, st
    paths = explore(run)
    s.no_exception("apply_dirichlet_condition", paths)
    for pth in paths:
        if pth.exc is not None:
            continue
        C.CTX[0] = pth.ctx
        n, N, S, val, st = pth.value
        Sx = lambda x: ONE - _prod([ONE - S(lift(x) - k * n) * between(x, k * n, (k + 1) * n) for k in range(dims)])

        def sub(t):
            def f(x):
                r = ZERO
                for k in range(dims):
                    r = r + between(x, k * n, (k + 1) * n) * val(x - k * n)
                return r
            return tm.subst_fun(t, "cv", f)
        lhs, rhs = imposed(Sx, N)
        for k in range(dims):
            x, y = ivar("x"), ivar("y")
            f = pth.ctx.facts.extend(x >= 0, x < n, y >= 0, y < n)
            old = pth.ctx.facts
            pth.ctx.facts = f
            try:
                s.eq(f"load of component {k}", st.right_hand_side.get((k * n + x,)), sub(rhs(k * n + x)), f, "apply_dirichlet_condition")
                for l in range(dims):
                    s.eq(f"matrix block [{k},{l}]", st.left_hand_side.data.get((k * n + x, l * n + y)), lhs(k * n + x, l * n + y), f, "apply_dirichlet_condition")
            finally:
                pth.ctx.facts = old
        s.defs("indices are in range")
    s.nonvacuous()


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def one(n):
    p, q = ivar("p"), ivar("q")
    ctx().assume(p >= 0, p < q, q <= n)
    cd = A.symbolic("cd", (q - p,))
    return ({"contact": Obj(node_indices=slice(0, p), node_condition=None), "dirichlet": Obj(node_indices=slice(p, q), node_condition=cd, node_count=q - p)},
            lambda x: between(x, p, q), lambda x: app("cd", (x - p,)))


def two(names):
    def f(n):
        p, q, p2, q2 = ivar("p"), ivar("q"), ivar("p2"), ivar("q2")
        ctx().assume(p >= 0, p < q, q <= p2, p2 < q2, q2 <= n)
        a, b = A.symbolic("cd", (q - p,)), A.symbolic("ce", (q2 - p2,))
        conds = {"contact": Obj(node_indices=slice(0, 0), node_condition=None)}
        conds[names[1]] = Obj(node_indices=slice(p2, q2), node_condition=b, node_count=q2 - p2)
        conds[names[0]] = Obj(node_indices=slice(p, q), node_condition=a, node_count=q - p)
        conds["neumann"] = Obj(node_indices=slice(0, 0), node_condition=None)
        return conds, (lambda x: between(x, p, q) + between(x, p2, q2)), (lambda x: between(x, p, q) * app("cd", (x - p,)) + between(x, p2, q2) * app("ce", (x - p2,)))
    return f


def indices(s, K, dims):
    """contract of get_all_boundary_indices for sorted index arrays of length K: the yielded slices
    enumerate exactly the unknowns of those nodes, each paired with the position of its node"""
    def run():
        n = ivar("n")
        c = ctx()
        ids = [ivar(f"i{k}") for k in range(K)]
        c.assume(n >= 1, ids[0] >= 0, ids[-1] < n)
        for a, b in zip(ids, ids[1:]):
            c.assume(a < b)
        arr = A.from_list(ids, "i")
        bo = bnd_obj(s, {"x": Obj(node_indices=arr)})
        return n, ids, list(bo.get_all_boundary_indices("x", n, dims))
    paths = explore(run)
    s.no_exception(f"{K} indices", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        n, ids, ys = p.value
        pairs = []
        total = ZERO
        ok = True
        f = p.ctx.facts
        for i, j in ys:
            s.zero("slices have equal length", lift(i.stop) - i.start - (lift(j.stop) - lift(j.start)), f)
            s.true("slices are not empty", lift(i.stop) > i.start, f)
            total = total + lift(i.stop) - lift(i.start)
        s.zero("number of unknowns", total - dims * K, f)
        for d in range(dims):
            for k in range(K):
                g = ids[k] + d * n
                hit = ZERO
                for i, j in ys:
                    inside = between(g, lift(i.start), lift(i.stop))
                    hit = hit + inside * tm.ind_eq(g - lift(i.start) + lift(j.start) - k)
                s.zero(f"unknown {k} of component {d} enumerated once with its own value", hit - 1, f)
    s.nonvacuous()


def array_system(s, K, dims):
    """index-array conditions: the complete postcondition for K symbolic sorted indices"""
    def conds(n):
        c = ctx()
        ids = [ivar(f"i{k}") for k in range(K)]
        c.assume(ids[0] >= 0, ids[-1] < n)
        for a, b in zip(ids, ids[1:]):
            c.assume(a < b)
        cd = A.symbolic("cd", (K,))
        S = lambda x: sum((tm.ind_eq(x - i) for i in ids), ZERO)
        val = lambda x: sum((tm.ind_eq(x - i) * app("cd", (lift(k),)) for k, i in enumerate(ids)), ZERO)
        return {"dirichlet": Obj(node_indices=A.from_list(ids, "i"), node_condition=cd, node_count=K)}, S, val
    system(s, dims, conds, "")


def lookup(s):
    """every present numbered condition and the plain one are found, each once, nothing else"""
    St = s.get(ST, "Statement")
    Pz = s.get(ST, "PiezoelectricStatement")
    cases = [([], []), (["dirichlet"], ["dirichlet"]), (["contact", "neumann", "dirichlet"], ["dirichlet"]),
             (["dirichlet_0"], ["dirichlet_0"]), (["dirichlet", "dirichlet_0", "dirichlet_1"], ["dirichlet", "dirichlet_0", "dirichlet_1"]),
             (["dirichlet", "dirichlet_1", "dirichlet_3"], ["dirichlet", "dirichlet_1", "dirichlet_3"]),
             (["dirichlet_2"], ["dirichlet_2"]), (["dirichlet", "piezo_dirichlet"], ["dirichlet"]),
             (["dirichlet_10", "dirichlet_9", "dirichlet"], ["dirichlet", "dirichlet_9", "dirichlet_10"])]
    for have, want in cases:
        def run():
            st = St(Obj(mesh=Obj(boundaries=Obj(boundaries={k: Obj() for k in have}))), (2, 2))
            pz = Pz(Obj(mesh=Obj(boundaries=Obj(boundaries={"piezo_" + k if not k.startswith("piezo_") else k[6:]: Obj() for k in have}))))
            return list(st.find_dirichlet_conditions()), list(pz.find_dirichlet_conditions())
        for p in explore(run):
            s.no_exception(f"lookup {have}", [p])
            if p.exc is None:
                s.true(f"conditions among {have}", sorted(p.value[0]) == sorted(want))
                s.true(f"piezo conditions among {have}", sorted(p.value[1]) == sorted("piezo_" + w for w in want))


def overwrite(s, dims):
    """Solver.solve: whatever the solver returned, prescribed unknowns carry the prescribed value, all others are kept"""
    Sv = s.get("conmech.solvers.solver", "Solver")

    def run():
        n = ivar("n")
        ctx().assume(n >= 1)
        conds, S, val = two(("dirichlet", "dirichlet_4"))(n)
        st, K = statement(s, dims, conds, n)
        sv = object.__new__(Sv)
        sol = A.symbolic("sol", (dims * n,))
        guess = A.symbolic("guess", (dims * n,))
        sv._solve_impl = lambda g, **kw: sol.copy()
        sv.v_vector, sv.u_vector = A.symbolic("vv", (dims * n,)), A.symbolic("uu", (dims * n,))
        sv.statement, sv.body = st, st.body
        return n, S, val, sv.solve(guess), guess, sv
    paths = explore(run)
    s.no_exception("solve", paths)
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        n, S, val, r, guess, sv = p.value
        for k in range(dims):
            x = ivar("x")
            f = p.ctx.facts.extend(x >= 0, x < n)
            s.eq(f"component {k}", r.get((k * n + x,)), S(x) * val(x) + (ONE - S(x)) * app("sol", (k * n + x,)), f, "Solver.solve")
        s.array_eq("frame: initial guess unchanged", guess, lambda ix: app("guess", (lift(ix[0]),)))
        s.array_eq("frame: u_vector unchanged", sv.u_vector, lambda ix: app("uu", (lift(ix[0]),)))
    s.nonvacuous()


def order(s):
    """update builds both sides first and imposes the conditions afterwards, once"""
    St = s.get(ST, "Statement")
    log = []

    class Sub(St):
        def update_left_hand_side(self, var):
            log.append("l")

        def update_right_hand_side(self, var):
            log.append("r")

        def find_dirichlet_conditions(self):
            log.append("d")
            return []
    Sub(Obj(mesh=Obj(boundaries=Obj(boundaries={}))), (1, 1)).update(None)
    s.true("update imposes conditions after building the system", log.count("d") >= 1 and log[-1] == "d" and set(log[:2]) == {"l", "r"})


def sections(tier):
    out = []
    for d in (1, 2, 3):
        out.append((f"one contiguous condition [{d} components]", (lambda s, d=d: system(s, d, one, "one")), 250))
        out.append((f"solution overwrite [{d} components]", (lambda s, d=d: overwrite(s, d)), 100))
    for d in (1, 2):
        out.append((f"invariant step [{d} components]", (lambda s, d=d: step(s, d)), 250))
        out.append((f"plain and numbered condition [{d} components]", (lambda s, d=d: system(s, d, two(("dirichlet", "dirichlet_0")), "two")), 250))
        out.append((f"numbered conditions only [{d} components]", (lambda s, d=d: system(s, d, two(("dirichlet_1", "dirichlet_3")), "two")), 250))
    for K in range(1, 5 if tier == "quick" else 7):
        out.append((f"index enumeration [{K} indices, 2 components]", (lambda s, K=K: indices(s, K, 2)), 200))
    for K, d in ((1, 1), (2, 2)) + (((3, 2),) if tier != "quick" else ()):
        out.append((f"index-array condition [{K} indices, {d} components]", (lambda s, K=K, d=d: array_system(s, K, d)), 250))
    out.append(("condition lookup", lookup, 60))
    out.append(("update order", order, 60))
    return out
