"""C01: per-element integrals."""
import math
from contracts.lib import *

FUNCTIONS = ["_dynamics_factory_{2d,3d}.get_integral_parts_numba", "denominator_numba", "get_edges_features_matrix_numba",
             "dynamics_factory_method.get_basic_matrices", "DynamicsFactory{2D,3D}.get_edges_features_matrix"]
ASSUMPTIONS = ["precondition: the element is not degenerate (det != 0)"]


def positive(s, name, i):
    """lemma (after volume = |det|/d!): |y| > 0 for every y != 0"""
    y = var("y")
    s.true(name, tm.tabs(y) > 0, facts=solve.Facts().extend(B(ONE - tm.ind_eq(y))))


def parts(s, d):
    """contract of get_integral_parts_numba(element_nodes, i): the gradient g_i satisfies
    g_i . (x_j - x_m) = [i=j] - [i=m] for all vertices j, m; volume = |det| / d! > 0"""
    mod = f"conmech.dynamics.factory._dynamics_factory_{d}d"
    fn = s.get(mod, "get_integral_parts_numba")
    X = A.symbolic("x", (d + 1, d))
    x = [[X.get((i, k)) for k in range(d)] for i in range(d + 1)]
    dd, num = cofactor_gradients(x, d)
    grads = []
    for i in range(d + 1):
        def run(i=i):
            ctx().assume(B(ONE - tm.ind_eq(dd)))
            return fn(X, i)
        for p in explore(run):
            C.CTX[0] = p.ctx
            if p.exc is not None:
                s.no_exception(f"vertex {i} terminates normally", [p])
                continue
            g = [lift(p.value[k]) for k in range(d)]
            vol = lift(p.value[d])
            for j in range(d + 1):
                for m in range(j):
                    s.zero(f"grad phi_{i} . (x_{j}-x_{m})", sum((g[k] * (x[j][k] - x[m][k]) for k in range(d)), ZERO) - (int(i == j) - int(i == m)), fn="get_integral_parts_numba")
            s.zero(f"volume at vertex {i}", vol * math.factorial(d) - tm.tabs(dd), fn="get_integral_parts_numba")
            positive(s, f"volume at vertex {i} is positive", i)
            s.array_eq(f"frame: vertices unchanged ({i})", X, lambda ix: x[ix[0]][ix[1]])
            s.defs(f"divisions are defined ({i})")
            grads.append(g)
    if len(grads) == d + 1:
        for k in range(d):
            s.zero(f"gradients sum to zero [{k}]", sum((g[k] for g in grads), ZERO))
        a = [var(f"a{k}") for k in range(d)]
        b = var("b")
        val = [sum((a[k] * x[i][k] for k in range(d)), b) for i in range(d + 1)]
        for k in range(d):
            s.zero(f"linear field reproduced [{k}]", sum((val[i] * grads[i][k] for i in range(d + 1)), ZERO) - a[k])
    s.nonvacuous()


def single(s, d):
    """public level: get_basic_matrices of one arbitrary element returns its exact volume and
    gradient integrals, whatever the position of its vertices in the node list"""
    gbm = s.get("conmech.dynamics.factory.dynamics_factory_method", "get_basic_matrices")
    for perm in (list(range(d + 1)), [d + 1] + list(range(d))[::-1]):
        nn = max(perm) + 1

        def run():
            X = A.symbolic("x", (nn, d))
            x = [[X.get((i, k)) for k in range(d)] for i in perm]
            dd, num = cofactor_gradients(x, d)
            ctx().assume(B(ONE - tm.ind_eq(dd)))
            el = A.from_list([perm], "i")
            r = gbm(el, X)
            return r, dd, num
        paths = explore(run)
        s.no_exception(f"single element {perm}", paths)
        for p in paths:
            if p.exc is not None:
                continue
            C.CTX[0] = p.ctx
            (vol, van, U, V, W, loc), dd, num = p.value
            fac = math.factorial(d)
            s.zero(f"{perm} volume", lift(vol.get((0,))) * fac - tm.tabs(dd))
            absd = tm.tabs(dd)
            for i, gi in enumerate(perm):
                for j, gj in enumerate(perm):
                    for k in range(d):
                        # V[k][i,j] = vol/(d+1) * g_j[k]
                        s.zero(f"{perm} V[{k}][{i},{j}]", lift(V.get((k, gi, gj))) - absd * num[j][k] * F(1, fac * (d + 1)) / dd)
                        for l in range(d):
                            s.zero(f"{perm} W[{k},{l}][{i},{j}]", lift(W.get((k, l, gi, gj))) - absd * F(1, fac) * (num[i][k] / dd) * (num[j][l] / dd))
            s.defs(f"{perm} divisions are defined")
    s.nonvacuous()


def sections(tier):
    return both_dims(parts, "per-vertex integrals") + both_dims(single, "one arbitrary element")
