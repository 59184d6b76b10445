"""Stand-in for the numpy module: the same functions on symbolic arrays (exact real arithmetic)."""
import itertools
import types
from fractions import Fraction
import numpy as rnp

from . import term as tm
from . import solve
from . import arr as A
from .term import T, B, ZERO, ONE, lift, as01, Unsupported
from .arr import Arr, CArr, SArr, SymSeq, make, from_list, dim, _is1
from .ctx import ctx
from .runtime import SymList, SymIter, vtruth

np = types.ModuleType("numpy")
lin = types.ModuleType("numpy.linalg")
np.linalg = lin
INV_ENTRY = {}


def _dtype(name, kind):
    return type(name, (), {"vname": name, "kind_": kind, "__new__": lambda cls, x=0: A.coerce(kind, lift(x)) if A.isnum(x) else as_arr(x).astype(name)})


for nm, kd in (("float64", "f"), ("double", "f"), ("float32", "f4"), ("int64", "i"), ("int32", "i"), ("int_", "i"),
               ("float_", "f"), ("bool_", "b"), ("single", "f4"), ("intp", "i"), ("uint64", "i"), ("integer", "i"), ("floating", "f")):
    setattr(np, nm, _dtype(nm, kd))
np.ndarray = Arr
np.pi = tm.var("pi") if False else Fraction("3.141592653589793")
np.inf = float("inf")
np.nan = float("nan")
np.newaxis = None
np.random = types.ModuleType("numpy.random")
np.typing = types.ModuleType("numpy.typing")


def reg(f, name=None, mod=np):
    setattr(mod, name or f.__name__.rstrip("_"), f)
    return f


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SymSeq):
        return x.to_arr()
    if isinstance(x, SymIter):
        return SymList(x.n, x.item).to_arr()
    return from_list(x)


def shp(shape):
    if isinstance(shape, SymSeq):
        raise Unsupported("symbolic shape")
    if isinstance(shape, Arr):
        shape = [shape[k] for k in range(shape.shape[0])]
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return tuple(dim(s) for s in shape)


@reg
def zeros(shape, dtype=None, order="C"):
    return A.full(shp(shape), 0, A.kind_of(dtype))


@reg
def ones(shape, dtype=None, order="C"):
    return A.full(shp(shape), 1, A.kind_of(dtype))


_emp = [0]


@reg
def empty(shape, dtype=None, order="C"):
    """contents are unspecified"""
    _emp[0] += 1
    return A.symbolic(f"empty!{_emp[0]}", shp(shape), A.kind_of(dtype) if A.kind_of(dtype) != "f4" else "f")


@reg
def full(shape, fill_value, dtype=None):
    k = A.kind_of(dtype) if dtype is not None else A.scalar_kind(fill_value)
    return A.full(shp(shape), fill_value, k)


def _like(a, dtype):
    a = as_arr(a)
    return a.shape, (A.kind_of(dtype) if dtype is not None else a.kind)


@reg
def zeros_like(a, dtype=None):
    s, k = _like(a, dtype)
    return A.full(s, 0, k)


@reg
def ones_like(a, dtype=None):
    s, k = _like(a, dtype)
    return A.full(s, 1, k)


@reg
def full_like(a, v, dtype=None):
    s, k = _like(a, dtype)
    return A.full(s, v, k)


@reg
def empty_like(a, dtype=None):
    s, k = _like(a, dtype)
    _emp[0] += 1
    return A.symbolic(f"empty!{_emp[0]}", s, k if k != "f4" else "f")


@reg
def eye(n, m=None, dtype=None, k=0):
    m = n if m is None else m
    return make((n, m), lambda i: tm.ind_eq(lift(i[0]) + k - lift(i[1])), A.kind_of(dtype))


np.identity = lambda n, dtype=None: eye(n, dtype=dtype)


@reg
def diag(a, k=0):
    a = as_arr(a)
    f = a.frozen()
    if a.ndim == 1:
        return make((a.shape[0], a.shape[0]), lambda i: tm.ind_eq(lift(i[0]) - lift(i[1])) * lift(f((i[0],))), a.kind)
    return make((a.shape[0],), lambda i: f((i[0], i[0])), a.kind)


@reg
def array(x, dtype=None, copy=True, ndmin=0, order=None):
    a = as_arr(x)
    a = a.copy() if dtype is None else a.astype(dtype)
    return a


@reg
def asarray(x, dtype=None, order=None):
    if isinstance(x, Arr) and (dtype is None or A.kind_of(dtype) == x.kind):
        return x
    return array(x, dtype)


np.ascontiguousarray = lambda x, dtype=None: asarray(x, dtype)
np.asanyarray = np.asarray


@reg
def copy(x):
    return as_arr(x).copy()


@reg
def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if isinstance(step, T):
        step = step.const() if step.is_const() else step
    a, b = lift(a), lift(b)
    k = "i" if a.is_int() and b.is_int() and isinstance(step, int) else "f"
    if step == 1 and k == "i":
        n = b - a
        if n.is_const():
            n = max(0, int(n.const()))
        elif not ctx().cur_facts().implies(n >= 0):
            n = tm.tmax(n, ZERO)
        r = make((n,), lambda i: lift(i[0]) + a, "i")
    elif a.is_const() and b.is_const() and not isinstance(step, T):
        vals = []
        x = a.const()
        st = Fraction(step)
        while (st > 0 and x < b.const()) or (st < 0 and x > b.const()):
            vals.append(int(x) if k == "i" else x)
            x += st
        r = from_list(vals, k)
    else:
        raise Unsupported("arange with a symbolic step")
    return r if dtype is None else r.astype(dtype)


@reg
def linspace(a, b, num=50, endpoint=True, dtype=None):
    n = dim(num)
    a, b = lift(a), lift(b)
    den = lift(n) - (1 if endpoint else 0)
    if isinstance(n, int) and n == 1:
        return from_list([a], "f")
    return make((n,), lambda i: a + (b - a) * lift(i[0]) / den, "f")


# ------------------------------------------------------------------ shape manipulation
@reg
def concatenate(parts, axis=0, dtype=None):
    parts = [as_arr(p) for p in parts]
    if axis is None:
        parts = [p.ravel() for p in parts]
        axis = 0
    if any(p.ndim == 0 for p in parts):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if len(set(p.ndim for p in parts)) > 1:
        raise ValueError("all the input array dimensions must match")
    # empty parts do not influence the dtype in a harmful way
    return A.concatenate(parts, axis)


def _at2d(x):
    x = as_arr(x)
    if x.ndim == 0:
        return x.reshape((1, 1))
    if x.ndim == 1:
        return x.reshape((1, x.shape[0]))
    return x


@reg
def vstack(parts, dtype=None):
    if isinstance(parts, (Arr, SymSeq)):
        a = as_arr(parts)
        if a.ndim == 2:
            return a.copy()
        raise Unsupported("vstack of a 3-d array")
    return A.concatenate([_at2d(p) for p in parts], 0)


np.row_stack = vstack


@reg
def hstack(parts, dtype=None):
    parts = [as_arr(p) for p in parts]
    return A.concatenate(parts, 0 if parts[0].ndim == 1 else 1)


@reg
def column_stack(parts):
    parts = [as_arr(p) for p in parts]
    parts = [p.reshape((p.shape[0], 1)) if p.ndim == 1 else p for p in parts]
    return A.concatenate(parts, 1)


@reg
def stack(parts, axis=0):
    parts = [as_arr(p) for p in parts]
    nd = parts[0].ndim + 1
    return A.stack(parts, axis % nd)


@reg
def block(x):
    def depth(y):
        if isinstance(y, list):
            return 1 + max(depth(e) for e in y)
        return 0
    d = depth(x)
    leaves = []

    def collect(y):
        if isinstance(y, list):
            for e in y:
                collect(e)
        else:
            leaves.append(as_arr(y))
    collect(x)
    nd = max(max(l.ndim for l in leaves), d)

    def up(a):
        a = as_arr(a)
        if a.ndim < nd:
            a = a.reshape((1,) * (nd - a.ndim) + tuple(a.shape))
        return a

    def go(y, lev):
        if isinstance(y, list):
            parts = [go(e, lev + 1) for e in y]
            return A.concatenate(parts, nd - (d - lev))
        return up(y)
    return go(x, 0)


@reg
def kron(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 2 or b.ndim != 2 or not all(isinstance(dim(x), int) for x in a.shape):
        raise Unsupported("kron of these shapes")
    return block([[a[i, j] * b for j in range(dim(a.shape[1]))] for i in range(dim(a.shape[0]))])


@reg
def split(a, n, axis=0):
    a = as_arr(a)
    axis %= a.ndim
    if isinstance(n, (list, tuple, Arr)):
        cuts = list(n) if not isinstance(n, Arr) else [n[k] for k in range(n.shape[0])]
        cuts = [0] + cuts + [a.shape[axis]]
    else:
        n = dim(n)
        if not isinstance(n, int):
            raise Unsupported("split into a symbolic number of parts")
        q = A.exact_div(lift(a.shape[axis]), lift(n))
        if q is None or (q.is_const() and q.const().denominator != 1):
            raise ValueError("array split does not result in an equal division")
        cuts = [dim(q * k) for k in range(n + 1)]
    pre = (slice(None),) * axis
    return [a[pre + (slice(x, y),)] for x, y in zip(cuts, cuts[1:])]


np.array_split = split


@reg
def moveaxis(a, s, d):
    a = as_arr(a)
    n = a.ndim
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s = [x % n for x in s]
    d = [x % n for x in d]
    order = [k for k in range(n) if k not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return a.transpose(order)


np.transpose = lambda a, axes=None: as_arr(a).transpose(*( [axes] if axes is not None else []))
np.swapaxes = lambda a, i, j: as_arr(a).swapaxes(i, j)
np.reshape = lambda a, s, order="C": as_arr(a).reshape(s, order=order)
np.ravel = lambda a, order="C": as_arr(a).ravel(order)
np.squeeze = lambda a, axis=None: A.squeeze(as_arr(a) if not A.isnum(a) else a, axis)
np.atleast_2d = _at2d
np.atleast_1d = lambda a: as_arr(a) if as_arr(a).ndim else as_arr(a).reshape((1,))


@reg
def expand_dims(a, axis):
    a = as_arr(a)
    nd = a.ndim + 1
    axis %= nd
    return a[(slice(None),) * axis + (None,)]


@reg
def tile(a, reps):
    a = as_arr(a)
    reps = [dim(r) for r in (reps if isinstance(reps, (tuple, list)) else [reps])]
    if not all(isinstance(r, int) for r in reps):
        raise Unsupported("tile a symbolic number of times")
    while a.ndim < len(reps):
        a = a[None]
    reps = [1] * (a.ndim - len(reps)) + reps
    for ax, r in enumerate(reps):
        if r != 1:
            a = A.concatenate([a] * r, ax)
    return a.copy()


@reg
def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    axis %= a.ndim
    n = dim(n) if A.isnum(n) else n
    d = a.shape[axis]
    g = a.frozen()
    if _is1(d) and A.isnum(n):
        return make(tuple(a.shape[:axis]) + (n,) + tuple(a.shape[axis + 1:]), lambda i: g(tuple(i[:axis]) + (0,) + tuple(i[axis + 1:])), a.kind)
    if not isinstance(n, int):
        raise Unsupported("repeat")
    if not isinstance(d, int):
        return make(tuple(a.shape[:axis]) + (dim(lift(d) * n),) + tuple(a.shape[axis + 1:]),
                    lambda i: g(tuple(i[:axis]) + (tm.idiv(lift(i[axis]), lift(n)),) + tuple(i[axis + 1:])), a.kind)
    return make(tuple(a.shape[:axis]) + (d * n,) + tuple(a.shape[axis + 1:]), lambda i: g(tuple(i[:axis]) + (A._cint(lift(i[axis]) // n),) + tuple(i[axis + 1:])), a.kind)


@reg
def delete(a, idx, axis=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    n = a.shape[axis]
    if A.isnum(idx):
        i = dim(idx)
        if isinstance(i, int) and i < 0:
            i = dim(lift(n) + i)
        f = a.frozen()
        sh = a.shape[:axis] + (dim(lift(n) - 1),) + a.shape[axis + 1:]

        def fn(ix):
            j = lift(ix[axis])
            g = tm.ind_le(lift(i) - j)
            return f(tuple(ix[:axis]) + (A._cint(j + g),) + tuple(ix[axis + 1:]))
        return make(sh, fn, a.kind)
    I = as_arr(idx)
    if isinstance(I, CArr) and isinstance(n, int) and all(lift(x).is_const() for x in I.a.ravel()):
        drop = {int(lift(x).const()) % n for x in I.a.ravel()}
        keep = [k for k in range(n) if k not in drop]
        return a[(slice(None),) * axis + (from_list(keep, "i"),)]
    raise Unsupported("delete of a symbolic set")


@reg
def append(a, b, axis=None):
    if axis is None:
        return A.concatenate([as_arr(a).ravel(), as_arr(b).ravel()], 0)
    return A.concatenate([as_arr(a), as_arr(b)], axis)


# ------------------------------------------------------------------ elementwise
class Ufunc:
    """callable with out=, where=, .at, .reduce, .outer"""
    def __init__(self, f, nin, name="", at=None, red=None):
        self.f, self.nin, self.__name__, self._at, self._red = f, nin, name, at, red

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, order=None, subok=None):
        if len(args) == self.nin + 1 and out is None:
            args, out = args[:-1], args[-1]
        if len(args) != self.nin:
            raise TypeError(f"{self.__name__}() takes {self.nin} positional arguments but {len(args)} were given")
        if isinstance(out, tuple):
            (out,) = out
        args = [as_arr(a) if isinstance(a, (list, tuple, SymSeq)) else a for a in args]
        r = self.f(*args)
        if dtype is not None:
            r = r.astype(dtype) if isinstance(r, Arr) else A.coerce(A.kind_of(dtype), lift(r))
        if where is not True:
            if out is None:
                raise Unsupported("where= without out=")
            r = np.where(where, r, out)
        if out is not None:
            if A.kind_of(getattr(out, "dtype", None)) == "i" and A.scalar_kind(r) in ("f", "f4"):
                raise TypeError("Cannot cast ufunc output")
            out.assign_all(r)
            return out
        return r

    def at(self, a, indices, b=None):
        if self._at is None or b is None:
            raise Unsupported(f"{self.__name__}.at")
        A.add_at(a, indices, b, self._at)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False):
        if self._red is None or out is not None or keepdims:
            raise Unsupported(f"{self.__name__}.reduce")
        a = as_arr(a)
        return getattr(np, self._red)(a, axis=axis) if axis is not None else getattr(np, self._red)(a)

    def outer(self, a, b):
        a, b = as_arr(a), as_arr(b)
        return self(a.reshape(tuple(a.shape) + (1,) * b.ndim), b)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__dict__.get('__name__')}.{name}")


def _map1(f, kind=None):
    def g(a):
        if isinstance(a, Arr):
            return A.emap(lambda x: f(lift(x)), a, kind)
        return f(lift(a))
    return Ufunc(g, 1)


np.abs = np.absolute = np.fabs = _map1(tm.tabs)
np.sqrt = _map1(tm.sqrt, "f")
np.sign = _map1(tm.tsign)
np.square = _map1(lambda x: x * x)
np.negative = _map1(lambda x: -x)
def _trig(name):
    return _map1(lambda x: tm.app(name, (x,)), "f")


np.sin, np.cos, np.tan, np.exp, np.log, np.arctan = [_trig(x) for x in ("sin", "cos", "tan", "exp", "log", "arctan")]


def floor_t(x):
    if x.is_int():
        return x
    return tm.app("floor", (x,), is_int=True)


np.floor = _map1(floor_t, "f")
np.ceil = _map1(lambda x: -floor_t(-x), "f")
np.isnan = _map1(lambda x: B(ZERO), "b")
np.isfinite = _map1(lambda x: B(ONE), "b")
np.logical_not = _map1(lambda x: B(ONE - as01(x != 0)), "b")


def _bin(name):
    def g(a, b):
        if A._sc(a) and A._sc(b):
            return A.OPS[name](a, b)
        return A.binop(name, a, b)
    return Ufunc(g, 2, name, {"add": 1, "sub": -1}.get(name), {"add": "sum", "mul": "prod", "and": "all", "or": "any"}.get(name))


for _n, _o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"), ("true_divide", "div"),
               ("logical_and", "and"), ("logical_or", "or"), ("equal", "eq"), ("not_equal", "ne"), ("less", "lt"),
               ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("power", "pow"), ("mod", "mod"),
               ("floor_divide", "floordiv"), ("remainder", "mod")):
    setattr(np, _n, _bin(_o))


def _bin2(f, red=None):
    def g(a, b):
        if A._sc(a) and A._sc(b):
            return f(lift(a), lift(b))
        return A.elementwise(lambda x, y: f(lift(x), lift(y)), [a, b], A.join_kind(A.scalar_kind(a), A.scalar_kind(b)))
    return Ufunc(g, 2, red, None, red)


np.maximum = np.fmax = _bin2(tm.tmax, "max")
np.minimum = np.fmin = _bin2(tm.tmin, "min")


@reg
def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


@reg
def where(c, *ab):
    if ab:
        a, b = ab
        if not any(isinstance(x, (Arr, list, tuple, SymSeq)) for x in (c, a, b)):
            return A.merge(as01(c), lift(a), lift(b))
        k = A.join_kind(A.scalar_kind(a if not isinstance(a, (list, tuple)) else as_arr(a)),
                        A.scalar_kind(b if not isinstance(b, (list, tuple)) else as_arr(b)))
        return A.elementwise(lambda x, y, z: A.merge(as01(x), A.val_lift(y), A.val_lift(z)), [c, a, b], k)
    c = as_arr(c)
    if c.ndim == 1:
        return (nonzero1(c),)
    raise Unsupported("where on a matrix")


def nonzero1(c):
    if c.kind != "b":
        c = A.binop("ne", c, 0)
    if isinstance(c, CArr):
        return from_list([k for k in range(c.shape[0]) if bool(c.a[k])], "i")
    sel, cnt = A.selection(c)
    return make((cnt,), lambda i: sel(lift(i[0])), "i")


@reg
def nonzero(c):
    c = as_arr(c)
    if c.ndim == 1:
        return (nonzero1(c),)
    raise Unsupported("nonzero of a matrix")


np.flatnonzero = lambda c: nonzero1(as_arr(c))


@reg
def isin(a, b, invert=False):
    b = as_arr(b)
    member = getattr(b, "member", None)
    r = A.emap(member if member is not None else (lambda x: A.aany(b.ravel() == x)), as_arr(a), "b")
    return ~r if invert else r


np.in1d = isin


# ------------------------------------------------------------------ reductions
@reg
def sum_(a, axis=None, keepdims=False, dtype=None):
    return A.asum(as_arr(a) if not A.isnum(a) else a, axis, keepdims)


np.sum = sum_
np.mean = lambda a, axis=None: A.amean(as_arr(a), axis)


@reg
def average(a, axis=None, weights=None):
    a = as_arr(a)
    if weights is None:
        return A.amean(a, axis)
    w = as_arr(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        w = w.reshape((1,) * (axis % a.ndim) + (w.shape[0],) + (1,) * (a.ndim - axis % a.ndim - 1))
        w = np.broadcast_to(w, a.shape)
    return A.asum(a * w, axis) / A.asum(w, axis)


def _mm(which):
    def g(a, axis=None, keepdims=False):
        a = as_arr(a)
        r = A.aminmax(a, axis, which)
        if keepdims:
            if axis is None:
                raise Unsupported("keepdims without axis")
            return np.expand_dims(r, axis % a.ndim) if isinstance(r, Arr) else as_arr(r).reshape((1,) * a.ndim)
        return r
    return g


np.min = np.amin = _mm("min")
np.max = np.amax = _mm("max")


@reg
def prod(a, axis=None, keepdims=False):
    a = as_arr(a)
    if keepdims:
        raise Unsupported("prod with keepdims")
    if axis is not None:
        axis = axis % a.ndim
        n = a.shape[axis]
        if not isinstance(n, int):
            raise Unsupported("product over a symbolic dimension")
        r = a[(slice(None),) * axis + (0,)] if n else np.ones(tuple(a.shape[:axis]) + tuple(a.shape[axis + 1:]))
        for q in range(1, n):
            r = r * a[(slice(None),) * axis + (q,)]
        return r
    if not all(isinstance(d, int) for d in a.shape):
        raise Unsupported("product over a symbolic dimension")
    r = ONE
    for ix in rnp.ndindex(*a.shape):
        r = r * lift(a.get(ix))
    return r


def _anyall(f):
    def g(a, axis=None):
        a = as_arr(a) if not A.isnum(a) else a
        if A.isnum(a):
            return vtruth(a)
        if axis is None:
            return f(a)
        axis %= a.ndim
        fr = a.frozen()
        sh = a.shape[:axis] + a.shape[axis + 1:]

        def fn(idx):
            sub = make((a.shape[axis],), lambda i: B(as01(fr(tuple(idx[:axis]) + (i[0],) + tuple(idx[axis:])))), "b")
            return f(sub)
        return make(sh, fn, "b")
    return g


np.any = _anyall(A.aany)
np.all = _anyall(A.aall)


@reg
def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    return A.aall(A.binop("eq", a, b))


@reg
def dot(a, b, out=None):
    if A.isnum(a) or A.isnum(b):
        r = a * b
    else:
        a, b = as_arr(a), as_arr(b)
        if a.ndim == 0 or b.ndim == 0:
            r = a * b
        elif b.ndim > 2:
            r = tensordot(a, b, (-1, -2))
        else:
            r = A.matmul(a, b)
    if out is not None:
        out.assign_all(r)
        return out
    return r


@reg
def matmul(a, b, out=None):
    r = A.matmul(as_arr(a), as_arr(b))
    if out is not None:
        out.assign_all(r)
        return out
    return r


@reg
def inner(a, b):
    if A.isnum(a) or A.isnum(b):
        return a * b
    a, b = as_arr(a), as_arr(b)
    return A.matmul(a, b) if a.ndim == 1 and b.ndim == 1 else tensordot(a, b, (-1, -1))


np.vdot = lambda a, b: A.matmul(as_arr(a).ravel(), as_arr(b).ravel())


@reg
def outer(a, b):
    a, b = as_arr(a).ravel(), as_arr(b).ravel()
    fa, fb = a.frozen(), b.frozen()
    return make((a.shape[0], b.shape[0]), lambda i: lift(fa((i[0],))) * lift(fb((i[1],))), A.join_kind(a.kind, b.kind))


@reg
def einsum(spec, *ops, optimize=False):
    if not isinstance(spec, str):
        raise Unsupported("einsum without subscripts")
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    ops = [as_arr(o) for o in ops]
    if "..." in spec:
        free = [ch for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if ch not in spec]
        most = max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        if out is None:
            raise Unsupported("einsum: implicit output with ellipsis")
        for q, (s, o) in enumerate(zip(ins, ops)):
            if "..." in s:
                n = o.ndim - len(s.replace("...", ""))
                ins[q] = s.replace("...", "".join(free[most - n:most]))
        out = out.replace("...", "".join(free[:most]))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: subscripts do not match the operand")
        for ch, d in zip(s, o.shape):
            if A._is1(dims.get(ch, 1)):
                dims[ch] = d
            elif not A._is1(d):
                if isinstance(d, int) and isinstance(dims[ch], int):
                    if d != dims[ch]:
                        raise ValueError("einsum: dimension mismatch")
                elif not A.dims_equal(d, dims[ch]):
                    raise Unsupported("einsum: dimensions not provably equal")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
    summed = [ch for ch in dims if ch not in out]
    fr = [o.frozen() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))

        def go(k):
            if k == len(summed):
                r = ONE
                for s, f, o in zip(ins, fr, ops):
                    r = r * lift(f(tuple(0 if A._is1(d) and not A._is1(dims[ch]) else env[ch] for ch, d in zip(s, o.shape))))
                return r

            def body(x):
                env[summed[k]] = x
                return go(k + 1)
            return A.big_sum(dims[summed[k]], body)
        return go(0)
    if not out:
        return fn(())
    return make(tuple(dims[ch] for ch in out), fn, A.join_kind(*[o.kind for o in ops]))


@reg
def trace(a):
    return A.asum(a.diagonal())


@reg
def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    f = a.frozen()
    n = a.shape[0]
    k = "i" if a.kind == "b" else a.kind

    def fn(i):
        return A.big_sum(dim(lift(i[0]) + 1), lambda x: f((x,)))
    return make((n,), fn, k)


@reg
def diff(a, n=1, axis=-1, prepend=None):
    a = as_arr(a)
    axis %= a.ndim
    pre = (slice(None),) * axis
    if prepend is not None:
        a = A.concatenate([np.atleast_1d(prepend), a], axis)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


@reg
def argmin(a, axis=None):
    return _arg(a, "min")


@reg
def argmax(a, axis=None):
    return _arg(a, "max")


def _arg(a, which):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a.shape[0], int):
        best, bi = lift(a.get((0,))), ZERO
        for k in range(1, a.shape[0]):
            v = lift(a.get((k,)))
            c = as01(v < best) if which == "min" else as01(v > best)
            best = A.merge(c, v, best)
            bi = A.merge(c, lift(k), bi)
        return bi
    raise Unsupported("arg" + which)


@reg
def cross(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.shape[-1] == 3:
        fa, fb = a.frozen(), b.frozen()
        sh = A.broadcast_shape([a.shape, b.shape])

        def pick(f, s, idx, c):
            off = len(sh) - len(s)
            return lift(f(tuple(0 if A._is1(s[k]) and not A._is1(sh[k + off]) else idx[k + off] for k in range(len(s) - 1)) + (c,)))

        def fn(idx):
            def at(c):
                x, y = (c + 1) % 3, (c + 2) % 3
                return pick(fa, a.shape, idx, x) * pick(fb, b.shape, idx, y) - pick(fa, a.shape, idx, y) * pick(fb, b.shape, idx, x)
            c = A._cint(lift(idx[-1]))
            if isinstance(c, int):
                return at(c)
            return tm.ind_eq(c) * at(0) + tm.ind_eq(c - 1) * at(1) + tm.ind_eq(c - 2) * at(2)
        return make(sh, fn, A.join_kind(a.kind, b.kind))
    if a.shape[-1] == 2 and a.ndim == 1:
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross")


@reg
def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    shape = [dim(s) for s in shape]
    if all(isinstance(s, int) for s in shape):
        return iter(list(itertools.product(*[range(s) for s in shape])))
    if len(shape) != 2:
        raise Unsupported("ndindex over symbolic shape")
    # library contract: every pair of the two ranges comes up exactly once
    from pyvc import solve
    k = len(NDINDEX_INFO)
    row, col, pos = (lambda *a, f=f"nd{k}.{nm}": tm.app(f, tuple(lift(x) for x in a), is_int=True) for nm in ("row", "col", "pos"))
    n1, n2 = (lift(s) for s in shape)
    solve.FUN_FACTS[f"nd{k}.row"] = lambda q: [row(q) >= 0, row(q) < n1]
    solve.FUN_FACTS[f"nd{k}.col"] = lambda q: [col(q) >= 0, col(q) < n2]
    NDINDEX_INFO.append(dict(row=row, col=col, pos=pos, shape=(n1, n2)))
    from pyvc.runtime import SymIter
    return SymIter(n1 * n2, lambda q: (row(q), col(q)))


NDINDEX_INFO = []       # contracts handed out by ndindex: row/col of a step, step of a pair


@reg
def meshgrid(*xs, indexing="xy"):
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = as_arr(xs[0]), as_arr(xs[1])
    fx, fy = x.frozen(), y.frozen()
    sh = (y.shape[0], x.shape[0]) if indexing == "xy" else (x.shape[0], y.shape[0])
    j = 1 if indexing == "xy" else 0
    return [make(sh, lambda i: fx((i[j],)), x.kind), make(sh, lambda i: fy((i[1 - j],)), y.kind)]


@reg
def unique(a, axis=None, return_index=False, return_counts=False, return_inverse=False):
    a = as_arr(a)
    if isinstance(a, CArr) and a.ndim == 1 and all(lift(x).is_const() for x in a.a.ravel()) and not return_inverse:
        vals = [lift(x).const() for x in a.a.ravel()]
        u = sorted(set(vals))
        r = from_list([int(x) if a.kind == "i" else x for x in u], a.kind)
        out = [r]
        if return_index:
            out.append(from_list([vals.index(x) for x in u], "i"))
        if return_counts:
            out.append(from_list([vals.count(x) for x in u], "i"))
        return out[0] if len(out) == 1 else tuple(out)
    if axis == 1 and a.ndim == 2 and isinstance(a.shape[1], int) and not (return_index or return_counts or return_inverse):
        # unique columns come sorted lexicographically: nothing changes if the first row is strictly ascending
        f = ctx().cur_facts()
        g = a.frozen()
        if f.decide(as01(lift(a.shape[0]) >= 1)) is True and all(
                f.decide(as01(lift(g((0, j))) < g((0, j + 1)))) is True for j in range(a.shape[1] - 1)):
            return a.copy()
        raise Unsupported("np.unique of columns that are not known to be ascending")
    h = UNIQUE_HOOK[0]
    if h is not None:
        return h(a, axis, return_index, return_counts, return_inverse)
    return unique_contract(a, axis, return_index, return_counts, return_inverse)


UNIQUE_HOOK = [None]
UNIQUE_INFO = []


def unique_contract(a, axis, return_index, return_counts, return_inverse):
    """contract of np.unique (values of any array, or rows of a matrix): representatives of the classes of equal values.
    rep(p): class of entry p; idx(q): first entry of class q; cnt(q): size of class q. That equal entries have the same class is
    left to the contracts to instantiate (UNIQUE_INFO)."""
    from . import solve
    if a.ndim > 1 and axis is None:
        a = a.reshape(-1)
    if not (a.ndim == 1 and axis in (None, 0) or a.ndim == 2 and axis == 0 and isinstance(a.shape[1], int)):
        raise Unsupported("np.unique along this axis")
    k = len(UNIQUE_INFO)
    N = lift(a.shape[0])
    nm = f"unique!{k}"
    g = a.frozen()
    w = a.shape[1] if a.ndim == 2 else None
    row = (lambda p: [lift(g((p, j))) for j in range(w)]) if w is not None else (lambda p: [lift(g((p,)))])
    m = tm.app(nm + ".n", (), is_int=True)
    idx = lambda q: tm.app(nm + ".idx", (lift(q),), is_int=True)
    rep = lambda p: tm.app(nm + ".rep", (lift(p),), is_int=True)
    cnt = lambda q: tm.app(nm + ".cnt", (lift(q),), is_int=True)
    wit = lambda q: tm.app(nm + ".wit", (lift(q),), is_int=True)

    def f_idx(q):
        inr = (q >= 0) & (q < m)
        i = idx(q)
        return [~inr | ((i >= 0) & (i < N)), ~inr | (rep(i) == q)]

    def f_rep(p):
        if tm.app_of(p) == nm + ".idx":       # rep(idx(q)) = q says it all
            return []
        inr = (p >= 0) & (p < N)
        r = rep(p)
        out = [~inr | ((r >= 0) & (r < m)), ~inr | (idx(r) <= p), ~inr | ~(cnt(r) == 1) | (idx(r) == p)]
        return out + [~inr | (x == y) for x, y in zip(row(idx(r)), row(p))]

    def f_cnt(q):
        inr = (q >= 0) & (q < m)
        v = wit(q)
        if tm.app_of(q) == nm + ".rep" and tm.app_of(tm.app_arg(q)) == nm + ".wit":
            return [~inr | (cnt(q) >= 1)]
        return [~inr | (cnt(q) >= 1), ~inr | (cnt(q) == 1) | ((v >= 0) & (v < N) & ~(v == idx(q)) & (rep(v) == q))]
    solve.FUN_FACTS[nm + ".idx"], solve.FUN_FACTS[nm + ".rep"], solve.FUN_FACTS[nm + ".cnt"] = f_idx, f_rep, f_cnt
    ctx().assume(m >= 0, m <= N, ~(N >= 1) | (m >= 1))
    UNIQUE_INFO.append(dict(array=a, n=N, m=m, idx=idx, rep=rep, cnt=cnt, wit=wit, row=row))
    u = make((m,) + ((w,) if w is not None else ()), lambda ix: g((idx(ix[0]),) + tuple(ix[1:])), a.kind)
    out = [u]
    if return_index:
        out.append(make((m,), lambda ix: idx(ix[0]), "i"))
    if return_inverse:
        out.append(make((a.shape[0],), lambda ix: rep(ix[0]), "i"))
    if return_counts:
        out.append(make((m,), lambda ix: cnt(ix[0]), "i"))
    return out[0] if len(out) == 1 else tuple(out)


SORTS = {}


@reg
def sort(a, axis=-1, kind=None):
    """contract of sorting the rows of a matrix: ascending, and every row has the same entries as before"""
    from . import solve
    a = as_arr(a)
    if isinstance(a, CArr) and a.ndim == 1 and all(lift(x).is_const() for x in a.a.ravel()):
        return from_list(sorted(lift(x).const() for x in a.a.ravel()), a.kind)
    if a.ndim != 2 or axis not in (-1, 1) or not isinstance(a.shape[1], int) or a.shape[1] > 6:
        raise Unsupported("sort")
    g = a.frozen()
    n, w = a.shape
    v = tm.var("§§sort", True)
    key = tuple(lift(g((v, j))).key for j in range(w)) + (lift(n).key,)
    if key not in SORTS:
        SORTS[key] = f"sorted!{len(SORTS)}"
    nm = SORTS[key]
    is_int = a.kind == "i"
    val = lambda e, j: tm.app(nm, (lift(e), lift(j)), is_int=is_int)

    def facts(e, j):
        inr = (e >= 0) & (e < n)
        old = [lift(g((e, q))) for q in range(w)]
        new = [val(e, q) for q in range(w)]
        out = [~inr | (new[q] <= new[q + 1]) for q in range(w - 1)]
        tot = ZERO
        for x, y in zip(old, new):
            tot = tot + x - y
        out.append(~inr | (tot == 0))
        for xs, ys in ((old, new), (new, old)):
            for x in xs:
                c = ~inr
                for y in ys:
                    c = c | (x == y)
                out.append(c)
        # distinct entries stay distinct
        d = ~inr
        for q in range(w):
            for r in range(q):
                d = d | (old[q] == old[r])
        return out + [d | (new[q] < new[q + 1]) for q in range(w - 1)]
    solve.FUN_FACTS[nm] = facts
    return make(a.shape, lambda ix: val(ix[0], ix[1]), a.kind)


# ------------------------------------------------------------------ linalg
def det_t(a):
    n = a.shape[0]
    g = lambda i, j: lift(a.get((i, j)))
    if n == 1:
        return g(0, 0)
    if n == 2:
        return g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
    if n == 3:
        return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1))
                - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
                + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))
    raise Unsupported("determinant of a large matrix")


@reg
def det(a):
    a = as_arr(a)
    if a.ndim == 2 and isinstance(a.shape[0], int):
        return det_t(a)
    raise Unsupported("determinant of a symbolic-size matrix")


lin.det = det
del np.det


def norm(a, ord=None, axis=None, keepdims=False):
    a = as_arr(a)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    sq = A.asum(a * a, axis, keepdims) if axis is not None else A.asum(a * a)
    if isinstance(sq, Arr):
        return A.emap(lambda x: tm.sqrt(lift(x)), sq, "f")
    return tm.sqrt(sq)


lin.norm = norm
_invn = [0]
INV_CACHE = {}


def inv(a):
    """contract of numpy.linalg.inv: a two-sided inverse, for invertible input (recorded as assumption)"""
    a = as_arr(a)
    n = a.shape[0]
    if isinstance(n, int) and n <= 3:
        d = det_t(a)
        g = lambda i, j: lift(a.get((i, j)))
        ctx().check_def("inverse of an invertible matrix", B(ONE - tm.ind_eq(d)))
        if n == 1:
            return from_list([[ONE / d]], "f")
        if n == 2:
            return from_list([[g(1, 1) / d, -g(0, 1) / d], [-g(1, 0) / d, g(0, 0) / d]], "f")

        def cof(i, j):
            r = [x for x in range(3) if x != i]
            c = [x for x in range(3) if x != j]
            m = g(r[0], c[0]) * g(r[1], c[1]) - g(r[0], c[1]) * g(r[1], c[0])
            return m if (i + j) % 2 == 0 else -m
        return from_list([[cof(j, i) / d for j in range(3)] for i in range(3)], "f")
    if not A.dims_equal(n, a.shape[1]):
        raise ValueError("inverse of a non-square matrix")
    f = a.frozen()
    p, q = tm.var("§§p", True), tm.var("§§q", True)
    key = (lift(f((p, q))).key, lift(n).key)
    nm = INV_CACHE.get(key)
    if nm is None:
        _invn[0] += 1
        nm = f"minv!{_invn[0]}"
        INV_CACHE[key] = nm
        solve.INV_MATS[nm] = (lift(n), lambda i, j: lift(f((i, j))))
    ctx().calls.append(("inv", nm, a))
    return make((n, n), lambda i: tm.app(nm, (lift(i[0]), lift(i[1]))), "f")


lin.inv = inv


def lsolve(a, b):
    """contract of numpy.linalg.solve: inverse times right-hand side, for invertible matrices"""
    return A.matmul(inv(a), as_arr(b))


lin.solve = lsolve
lin.LinAlgError = type("LinAlgError", (Exception,), {})


def _isclose(a, b, rtol=Fraction("1e-05"), atol=Fraction("1e-08"), equal_nan=False):
    r = np.abs(a - b) <= lift(atol) + lift(rtol) * np.abs(b)
    return r


def _allclose(a, b, rtol=Fraction("1e-05"), atol=Fraction("1e-08"), equal_nan=False):
    r = _isclose(as_arr(a), as_arr(b), rtol, atol) if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)) else _isclose(a, b, rtol, atol)
    return A.aall(r) if isinstance(r, Arr) else r


class _Errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.isclose = lambda a, b, **k: _isclose(as_arr(a) if isinstance(a, (list, tuple)) else a, as_arr(b) if isinstance(b, (list, tuple)) else b, **k)
np.allclose = _allclose
np.errstate = _Errstate
np.ptp = lambda a, axis=None: np.max(a, axis=axis) - np.min(a, axis=axis)
np.hypot = lambda a, b: np.sqrt(a * a + b * b)
np.count_nonzero = lambda a: np.sum(A.binop("ne", as_arr(a), 0))
np.nan_to_num = lambda a, **k: as_arr(a).copy()


# ------------------------------------------------------------------ further library functions, from their definitions
@reg
def tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    ax, bx = [[x] if isinstance(x, int) else list(x) for x in axes]
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    letters = iter("abcdefghijklmnopqrstuvwxyz")
    la = [next(letters) for _ in range(a.ndim)]
    lb = [la[ax[bx.index(q)]] if q in bx else next(letters) for q in range(b.ndim)]
    out = [x for q, x in enumerate(la) if q not in ax] + [x for q, x in enumerate(lb) if q not in bx]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


@reg
def broadcast_to(a, shape, subok=False):
    a = as_arr(a)
    shape = shp(shape)
    g = A._value_reader(a, shape)
    return make(shape, lambda idx: g(tuple(idx)), a.kind)


@reg
def take(a, indices, axis=None, out=None, mode="raise"):
    if out is not None or mode != "raise":
        raise Unsupported("take")
    a = as_arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    i = as_arr(indices) if isinstance(indices, (list, tuple, SymSeq)) else indices
    return a[(slice(None),) * (axis % a.ndim) + (i,)]


@reg
def flip(a, axis=None):
    a = as_arr(a)
    axes = range(a.ndim) if axis is None else [x % a.ndim for x in ([axis] if isinstance(axis, int) else axis)]
    return a[tuple(slice(None, None, -1) if q in axes else slice(None) for q in range(a.ndim))]


np.flipud = lambda a: flip(a, 0)
np.fliplr = lambda a: flip(a, 1)


@reg
def roll(a, shift, axis=None):
    a = as_arr(a)
    if not isinstance(shift, int) or (axis is None and a.ndim != 1):
        raise Unsupported("roll")
    axis = 0 if axis is None else axis % a.ndim
    n = a.shape[axis]
    if not isinstance(n, int):
        raise Unsupported("roll of a symbolic dimension")
    g = a.frozen()

    def fn(idx):
        x = A._cint(lift(idx[axis]))
        if not isinstance(x, int):
            raise Unsupported("roll at a symbolic position")
        return g(tuple(idx[:axis]) + ((x - shift) % n,) + tuple(idx[axis + 1:]))
    return make(a.shape, fn, a.kind)


@reg
def ix_(*xs):
    xs = [as_arr(x) for x in xs]
    out = []
    for q, x in enumerate(xs):
        if x.kind == "b":
            x = nonzero1(x)
        out.append(x.reshape((1,) * q + (x.shape[0],) + (1,) * (len(xs) - q - 1)))
    return tuple(out)


def _tri(keep):
    def g(a, k=0):
        a = as_arr(a)
        f = a.frozen()
        return make(a.shape, lambda idx: lift(f(tuple(idx))) * as01(keep(lift(idx[-2]), lift(idx[-1]), k)), a.kind)
    return g


np.ix_ = ix_
np.triu = _tri(lambda i, j, k: j - i >= k)
np.tril = _tri(lambda i, j, k: j - i <= k)


@reg
def fill_diagonal(a, val, wrap=False):
    if wrap or isinstance(val, (Arr, list, tuple)) or a.ndim != 2:
        raise Unsupported("fill_diagonal")
    n = a.shape[0]
    if isinstance(n, int) and isinstance(a.shape[1], int):
        for q in range(min(n, a.shape[1])):
            a[q, q] = val
        return
    a.assign_all(np.where(make(a.shape, lambda i: lift(i[0]) == lift(i[1]), "b"), val, a))


@reg
def bincount(x, weights=None, minlength=0):
    x = as_arr(x)
    v = tm.fresh("b", True)
    c = A.ctx()
    g = x.frozen()
    old = c.facts
    c.facts = old.extend(v >= 0, v < x.shape[0])
    try:
        e = lift(g((v,)))
        ok = solve.prove_bool((e >= 0) & (e < minlength), c.cur_facts()).status == "proved"
    finally:
        c.facts = old
    if not ok:
        raise Unsupported("bincount: length not known")
    w = 1 if weights is None else as_arr(weights)
    r = np.zeros(minlength, dtype=int if weights is None else float)
    A.add_at(r, x, w)
    return r


@reg
def select(conds, choices, default=0):
    r = default
    for cnd, ch in reversed(list(zip(conds, choices))):
        r = np.where(cnd, ch, r)
    return r


@reg
def copyto(dst, src, where=True):
    dst.assign_all(src if where is True else np.where(where, src, dst))


np.shape = lambda a: as_arr(a).shape if not A.isnum(a) else ()
np.ndim = lambda a: as_arr(a).ndim if not A.isnum(a) else 0
np.isscalar = lambda a: A.isnum(a) or isinstance(a, str)


@reg
def size(a, axis=None):
    a = as_arr(a)
    return a.size if axis is None else a.shape[axis]


@reg
def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset:
        raise Unsupported("diagonal with offset")
    a = as_arr(a)
    rest = [q for q in range(a.ndim) if q not in (axis1 % a.ndim, axis2 % a.ndim)]
    return a.transpose([axis1 % a.ndim, axis2 % a.ndim] + rest).diagonal()


np.deg2rad = np.radians = _map1(lambda x: x * np.pi / 180, "f")
np.reciprocal = _map1(lambda x: ONE / x)
np.positive = _map1(lambda x: x)
np.isinf = _map1(lambda x: B(ZERO), "b")
np.cbrt = np.arccos = np.arcsin = np.sinh = np.cosh = np.tanh = None
np.cbrt, np.arccos, np.arcsin, np.sinh, np.cosh, np.tanh = [_trig(x) for x in ("cbrt", "arccos", "arcsin", "sinh", "cosh", "tanh")]
np.bitwise_and = np.logical_and
np.bitwise_or = np.logical_or
np.invert = np.logical_not
np.logical_xor = _bin2(lambda a, b: B(as01(a) + as01(b) - 2 * as01(a) * as01(b)))
np.float_power = np.power
np.extract = lambda c, a: as_arr(a).ravel()[as_arr(c).ravel()]


@reg
def compress(c, a, axis=None):
    a = as_arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return a[(slice(None),) * axis + (as_arr(c),)]


@reg
def dstack(parts):
    ps = []
    for p in parts:
        p = as_arr(p)
        ps.append(p.reshape((1, p.shape[0], 1)) if p.ndim == 1 else p.reshape(tuple(p.shape) + (1,)) if p.ndim == 2 else p)
    return np.concatenate(ps, axis=2)


np.vsplit = lambda a, n: np.split(a, n, axis=0)
np.hsplit = lambda a, n: np.split(a, n, axis=1 if as_arr(a).ndim > 1 else 0)
np.fromiter = lambda it, dtype=None, count=-1: np.array(it if isinstance(it, SymSeq) else list(it), dtype=dtype)


@reg
def apply_along_axis(f, axis, a):
    a = as_arr(a)
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    if not all(isinstance(d, int) for d in b.shape[:-1]):
        raise Unsupported("apply_along_axis over a symbolic dimension")
    cells = [f(b[ix]) for ix in rnp.ndindex(*b.shape[:-1])]
    r = np.array(cells)
    r = r.reshape(tuple(b.shape[:-1]) + tuple(r.shape[1:]))
    return np.moveaxis(r, -1, axis) if r.ndim == a.ndim else r


class _Stacker:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, item):
        item = item if isinstance(item, tuple) else (item,)
        if any(isinstance(x, (slice, str)) for x in item):
            raise Unsupported("slices in r_/c_")
        parts = [as_arr(x) if not A.isnum(x) else from_list([x]) for x in item]
        if self.axis == 0:
            return np.concatenate([p if p.ndim else p.reshape((1,)) for p in parts], axis=0)
        return np.column_stack(parts)


np.r_, np.c_ = _Stacker(0), _Stacker(1)


class _S:
    def __getitem__(self, item):
        return item


np.s_ = np.index_exp = _S()


def _multi_dot(arrays):
    r = arrays[0]
    for x in arrays[1:]:
        r = np.dot(r, x)
    return r


def _matrix_power(a, n):
    if not isinstance(n, int) or n < 1:
        raise Unsupported("matrix power")
    r = a
    for _ in range(n - 1):
        r = np.dot(r, a)
    return r


lin.multi_dot, lin.matrix_power = _multi_dot, _matrix_power


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__name__}.{name} is not modelled")


np.__class__ = _Mod
lin.__class__ = _Mod


def add_lib_facts():
    """facts about uninterpreted library functions (instantiated per application)"""
    def floor_facts(x):
        f = tm.app("floor", (x,), is_int=True)
        return [f <= x, x < f + 1]
    solve.FUN_FACTS["floor"] = floor_facts

    def trunc_facts(x):
        t = tm.app("trunc", (x,), is_int=True)
        return [(x < 0) | ((t <= x) & (x < t + 1)), (x > 0) | ((t >= x) & (x > t - 1))]
    solve.FUN_FACTS["trunc"] = trunc_facts


add_lib_facts()
