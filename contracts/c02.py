"""C02: assembly over an arbitrary mesh, against the contract of the per-element routine."""
import inspect
from contracts.lib import *

FUNCTIONS = ["_dynamics_factory_{2d,3d}.get_edges_features_matrix_numba", "DynamicsFactory{2D,3D}.get_edges_features_matrix",
             "dynamics_factory_method.get_basic_matrices", "dynamics_factory_method.get_factory"]
ASSUMPTIONS = ["precondition: every element lists d+1 distinct node numbers in range, at least one element",
               "callee contract: get_integral_parts_numba(vertices, i) returns (grad phi_i, volume) with gradients summing to zero and volume the same for every i (proved by C01)"]


def parts_contract(d, calls):
    """ghost functions G_k(i; vertices), VOL(vertices); the last gradient is minus the sum of the others"""
    def contract(element_nodes, element_index):
        xs = tuple(lift(element_nodes.get((i, c))) for i in range(d + 1) for c in range(d))
        vol = app("VOL", xs)
        ctx().assume(vol > 0)
        calls.append(element_index)
        i = element_index if isinstance(element_index, int) else (int(lift(element_index).const()) if lift(element_index).is_const() else None)
        if i is None:
            raise Unsupported("vertex number is symbolic")
        return tuple(grad(d, xs, i, k) for k in range(d)) + (vol,)
    return contract


def grad(d, xs, i, k):
    if i == d:
        return -sum((app(f"G{k}", (lift(j),) + xs) for j in range(d)), ZERO)
    return app(f"G{k}", (lift(i),) + xs)


def element(d, e):
    nd = lambda i, c: app("nodes", (app("el", (e, lift(i)), True), lift(c)))
    xs = tuple(nd(i, c) for i in range(d + 1) for c in range(d))
    return xs, app("VOL", xs)


def spec(d, ne, weight):
    """sum over elements and local pairs of weight(i, j, vertices)*volume placed at (el[e,i], el[e,j])"""
    def f(a, b):
        e = tm.fresh("e", True)
        xs, vol = element(d, e)
        body = ZERO
        for i in range(d + 1):
            for j in range(d + 1):
                w = lift(weight(i, j, xs))
                if w is ZERO:
                    continue
                body = body + vol * w * tm.ind_eq(app("el", (e, lift(i)), True) - lift(a)) * tm.ind_eq(app("el", (e, lift(j)), True) - lift(b))
        return tm.mk_sum(e, ZERO, ne, body)
    return f


def W_spec(d, ne, k, l):
    return spec(d, ne, lambda i, j, xs: grad(d, xs, i, k) * grad(d, xs, j, l))


def U_spec(d, ne):
    return spec(d, ne, lambda i, j, xs: F(1 + (i == j), (d + 1) * (d + 2)))


def V_spec(d, ne, k):
    return spec(d, ne, lambda i, j, xs: grad(d, xs, j, k) * F(1, d + 1))


def N_spec(d, ne):
    return spec(d, ne, lambda i, j, xs: F(int(i != j), (d + 1) * d))


def attach(s, d, calls):
    """replace the callee by its contract when it is there with the known interface"""
    m = s.load(f"conmech.dynamics.factory._dynamics_factory_{d}d")
    fn = getattr(m, "get_integral_parts_numba", None)
    if fn is None:
        raise SpecGone("get_integral_parts_numba is gone")
    m.get_integral_parts_numba = parts_contract(d, calls)
    return m


def assembly(s, d):
    gbm = s.get("conmech.dynamics.factory.dynamics_factory_method", "get_basic_matrices")
    calls = []
    attach(s, d, calls)

    def run():
        n, ne, nodes, el = symbolic_mesh(d)
        fe, fn_ = frozen(el), frozen(nodes)
        r = gbm(el, nodes)
        return n, ne, nodes, el, fe, fn_, r
    paths = explore(run)
    s.no_exception("assembly terminates normally", paths)
    if not calls:
        raise Unsupported("the per-element routine is not called: contract cannot be attached")
    for p in paths:
        if p.exc is not None:
            continue
        C.CTX[0] = p.ctx
        c = p.ctx
        n, ne, nodes, el, fe, fn_, (vol, van, U, V, W, loc) = p.value
        s.array_eq("element volumes", vol, lambda ix: element(d, lift(ix[0]))[1], shape=(ne,), fn="get_edges_features_matrix_numba")
        s.array_eq("mass matrix", U, lambda ix: U_spec(d, ne)(*ix), shape=(n, n))
        s.array_eq("nodal volume matrix", van, lambda ix: N_spec(d, ne)(*ix), shape=(n, n))
        s.array_eq("first-derivative matrices", V, lambda ix: V_spec(d, ne, ix[0])(ix[1], ix[2]), shape=(d, n, n))
        s.array_eq("gradient-gradient matrices", W, lambda ix: W_spec(d, ne, ix[0], ix[1])(ix[2], ix[3]), shape=(d, d, n, n))
        if loc is not None:
            def lspec(ix):
                xs, v = element(d, lift(ix[2]))
                return v * grad(d, xs, ix[3], ix[0]) * grad(d, xs, ix[4], ix[1])
            s.array_eq("local stiffness", loc, lspec, shape=(d, d, ne, d + 1, d + 1))
        s.array_eq("frame: elements unchanged", el, fe)
        s.array_eq("frame: nodes unchanged", nodes, fn_)
        s.defs("divisions and indices are defined", ignore=())
    s.nonvacuous()


def lemmas(s, d):
    """consequences of the postconditions of `assembly`, for all meshes"""
    n, ne, nodes, el = symbolic_mesh(d)
    c = ctx()
    a, b = ivar("a"), ivar("b")
    c.assume(a >= 0, a < n, b >= 0, b < n)
    tot = ZERO
    e = tm.fresh("e", True)
    total = tm.mk_sum(e, ZERO, ne, element(d, e)[1])
    U, N = U_spec(d, ne), N_spec(d, ne)
    s.zero("mass matrix is symmetric", U(a, b) - U(b, a))
    x, y = tm.fresh("x", True), tm.fresh("y", True)
    dbl = lambda f: tm.mk_sum(x, ZERO, n, tm.mk_sum(y, ZERO, n, f(x, y)))
    s.zero("mass entries sum to the volume", dbl(U) - total)
    s.zero("nodal volumes sum to the volume", dbl(N) - total)
    for k in range(d):
        V = V_spec(d, ne, k)
        s.zero(f"derivative of a constant is zero V[{k}]", tm.mk_sum(y, ZERO, n, V(a, y)))
        for l in range(d):
            Wkl, Wlk = W_spec(d, ne, k, l), W_spec(d, ne, l, k)
            s.zero(f"W[{k},{l}] transposed is W[{l},{k}]", Wkl(a, b) - Wlk(b, a))
            s.zero(f"constants in the kernel of W[{k},{l}]", tm.mk_sum(y, ZERO, n, Wkl(a, y)))
    s.nonvacuous()


def sections(tier):
    return both_dims(assembly, "assembly of an arbitrary mesh", budget=400) + both_dims(lemmas, "consequences of the assembly contract")
