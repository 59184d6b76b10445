"""Shared ghost definitions used by the contracts."""
import itertools
from fractions import Fraction

from pyvc import term as tm, arr as A, ctx as C, solve, runtime as R
from pyvc.term import T, B, ZERO, ONE, lift, as01, Unsupported, var, app
from pyvc.ctx import ctx
from pyvc.harness import explore, SpecGone

F = Fraction


def ivar(name):
    return var(name, True)


def det(m):
    n = len(m)
    if n == 1:
        return lift(m[0][0])
    r = ZERO
    for j in range(n):
        r = r + (-1) ** j * lift(m[0][j]) * det([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def cofactor_gradients(X, d):
    """ghost: (det, [grad of barycentric coordinate i] * det) for vertices X (list of d+1 lists)"""
    E = [[lift(X[i + 1][k]) - lift(X[0][k]) for k in range(d)] for i in range(d)]
    dd = det(E)
    num = [[None] * d for _ in range(d + 1)]
    for i in range(d):
        for k in range(d):
            minor = [[E[a][b] for b in range(d) if b != k] for a in range(d) if a != i]
            num[i + 1][k] = ((-1) ** (i + k)) * (det(minor) if d > 1 else ONE)
    for k in range(d):
        s = ZERO
        for i in range(1, d + 1):
            s = s + num[i][k]
        num[0][k] = -s
    return dd, num


def frozen(a):
    """reader of the present contents of an array"""
    cp = a.copy()
    return lambda idx: cp.get(idx)


def symbolic_mesh(d, name=""):
    """an arbitrary mesh: n nodes, ne elements, valid and distinct node numbers in each element"""
    c = ctx()
    n, ne = ivar("n"), ivar("ne")
    c.assume(n >= d + 1, ne >= 1)
    nodes = A.symbolic("nodes" + name, (n, d))
    el = A.symbolic("el" + name, (ne, d + 1), "i")
    ename = "el" + name

    def ff(e, i):
        x = app(ename, (e, i), True)
        return [x >= 0, x < n] + [app(ename, (e, lift(j)), True) != x for j in range(d + 1) if not (i.is_const() and i.const() == j)]
    solve.FUN_FACTS[ename] = ff
    return n, ne, nodes, el


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def both_dims(fn, label, q3=True, budget=300):
    return [(f"{label}[{d}d]", (lambda s, d=d: fn(s, d)), budget) for d in (2, 3)]


def derivative(t, v):
    """d t / d v where v occurs polynomially, in denominators and under roots only"""
    t, vid = lift(t), tm.vid(v)
    out = ZERO
    for mono, c in t.m.items():
        for k, (aid, e) in enumerate(mono):
            at = tm.atom(aid)
            if vid not in at.fv:
                continue
            rest = T.make({tuple(x for j, x in enumerate(mono) if j != k): c})
            base = tm.of_atom(at)
            if at.id == vid:
                da = ONE
            elif at.kind == "inv":
                da = -derivative(at.args[0], v) * base * base
            elif at.kind == "inv1":
                da = -derivative(tm.of_atom(tm.atom(at.args[0])), v) * base * base
            elif at.kind == "sqrt":
                da = derivative(at.args[0], v) / (2 * base)
            else:
                raise Unsupported(f"derivative of {at.kind}")
            out = out + rest * e * (base ** (e - 1) if e > 1 else ONE) * da
    return out
