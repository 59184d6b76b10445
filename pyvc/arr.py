"""Symbolic arrays.

CArr: every dimension is a Python int; cells live in a NumPy object array, so views,
      fancy indexing, transposition and reshaping follow NumPy itself.
SArr: some dimension is symbolic; the content is a function from indices to terms, with
      guarded writes; views carry a forward map and an inverse map to their root.
"""
import weakref
from fractions import Fraction
import numpy as rnp

from . import term as tm
from .term import T, B, ZERO, ONE, lift, as01, Unsupported, ite
from .ctx import ctx


def isnum(x):
    return isinstance(x, (T, B, int, Fraction, bool, float))


def val_lift(x):
    """array cell value -> T (numbers) or B or other object"""
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return B(ONE if x else ZERO)
    if isinstance(x, T):
        return x
    if isinstance(x, (int, Fraction, float)):
        return lift(x)
    if isinstance(x, rnp.integer):
        return lift(int(x))
    return x


def dim(x):
    """normalise a dimension: int if constant"""
    if isinstance(x, T):
        if x.is_const():
            if x.const().denominator != 1:
                raise Unsupported("fractional dimension")
            return int(x.const())
        return x
    if isinstance(x, (int, rnp.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    raise Unsupported(f"dimension {x!r}")


def dims_equal(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    d = a - b
    if d.is_const():
        return False
    r = ctx().cur_facts().decide(tm.ind_eq(d))
    return r is True


def coerce(kind, v):
    """store v into an array of dtype kind"""
    if kind == "o":
        return v
    if kind == "b":
        return v if isinstance(v, B) else B(as01(v))
    if not isinstance(v, (T, B)):
        raise Unsupported(f"storing {type(v).__name__} into a numeric array")
    v = lift(v)
    if kind == "i":
        if v.is_int():
            return v
        return tm.app("trunc", (v,), is_int=True)
    if kind == "f4":
        if v.is_const() and v.const().denominator in (1, 2, 4, 8, 16) and abs(v.const().numerator) < 2 ** 20:
            return v
        return tm.app("f32", (v,))
    return v


class Root:
    """owner of array content"""
    def __init__(self):
        c = ctx()
        c.roots.append(weakref.ref(self))
        self.version = 0


class CRoot(Root):
    def __init__(self, cells, kind):
        super().__init__()
        self.cells = cells
        self.kind = kind

    def snapshot(self):
        return self.cells.copy()

    def restore(self, snap):
        self.cells[...] = snap

    def shape(self):
        return self.cells.shape


class SRoot(Root):
    def __init__(self, shape, fn, kind):
        super().__init__()
        self.shp = tuple(shape)
        self.kind = kind
        self.state = (fn, ())      # base function, writes (oldest first)
        self.memo = {}

    def snapshot(self):
        return self.state

    def restore(self, snap):
        self.state = snap
        self.memo = {}

    def shape(self):
        return self.shp

    def read(self, idx, state=None):
        if state is None:
            state = self.state
        key = (id(state), tuple(lift(i).key for i in idx))
        r = self.memo.get(key)
        if r is not None and r[0] is state and (r[2] is None or r[2] is ctx().cur_facts()):
            return r[1]
        used = None
        base, writes = state
        idx = tuple(i if isinstance(i, int) else _cint(i) for i in idx)
        # collect applicable writes from newest to oldest
        stack = []
        v = None
        for match, val, add in reversed(writes):
            c, oidx = match(idx)
            if c is ZERO:
                continue
            if c is not ONE and len(writes) > 1:
                facts = ctx().cur_facts()
                d = facts.decide(c)
                if d is not None and not c.is_const():
                    used = facts        # the value read depends on what is known here
                if d is False:
                    continue
                if d is True:
                    c = ONE
            x = val(oidx)
            if c is ONE and not add:
                v = x
                break
            stack.append((c, x, add))
        if v is None:
            v = base(idx)
        for c, x, add in reversed(stack):
            if add:
                v = lift(v) + c * lift(x)
            else:
                v = merge(c, x, v)
        self.memo[key] = (state, v, used)
        return v

    def write(self, match, val, add=False):
        base, writes = self.state
        g = ctx().guard()
        if g is not ONE:
            old = match

            def match(idx, old=old, g=g):
                c, o = old(idx)
                return c * g, o
        kind = self.kind
        self.state = (base, writes + ((match, lambda o: coerce(kind, val_lift(val(o))), add),))
        self.version += 1
        self.memo = {}


def _cint(i):
    i = lift(i)
    if i.is_const() and i.const().denominator == 1:
        return int(i.const())
    return i


def merge(c, a, b):
    """ite on cell values"""
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    if isinstance(a, B) or isinstance(b, B):
        return B(c * as01(a) + (ONE - c) * as01(b))
    if isinstance(a, T) and isinstance(b, T):
        return c * a + (ONE - c) * b
    if isnum(a) and isnum(b):
        return ite(B(c), a, b)
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


class Arr:
    __array_priority__ = 1000
    __slots__ = ("__weakref__",)

    # -------------------------------------------------------------- generic API
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic dimension outside the verified code")

    def vlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[k] for k in range(n)])

    def __bool__(self):
        if all(isinstance(d, int) for d in self.shape) and self.size == 1:
            return bool(self.get((0,) * self.ndim))
        raise ValueError("truth value of an array")

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    def __neg__(self):
        return emap(lambda a: -lift(a), self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return emap(lambda a: tm.tabs(lift(a)), self)

    def __invert__(self):
        return emap(lambda a: B(ONE - as01(a)), self, kind="b")

    def __add__(self, o):
        return binop("add", self, o)

    def __radd__(self, o):
        return binop("add", o, self)

    def __sub__(self, o):
        return binop("sub", self, o)

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    def __rmul__(self, o):
        return binop("mul", o, self)

    def __truediv__(self, o):
        return binop("div", self, o)

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __floordiv__(self, o):
        return binop("floordiv", self, o)

    def __mod__(self, o):
        return binop("mod", self, o)

    def __pow__(self, o):
        return binop("pow", self, o)

    def __and__(self, o):
        return binop("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return binop("or", self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return NeNone()
        return binop("ne", self, o)

    def __lt__(self, o):
        return binop("lt", self, o)

    def __le__(self, o):
        return binop("le", self, o)

    def __gt__(self, o):
        return binop("gt", self, o)

    def __ge__(self, o):
        return binop("ge", self, o)

    __hash__ = object.__hash__

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if [lift(d) for d in r.shape] != [lift(d) for d in self.shape] and not all(
            dims_equal(a, b) for a, b in zip(r.shape, self.shape)
        ):
            raise ValueError("non-broadcastable output operand")
        if isinstance(self, SArr) and op in ("add", "sub") and self.kind in ("f", "i"):
            d = binop(op, full(self.shape, 0, self.kind), o)
            if not (self.kind == "i" and d.kind == "f"):
                self.assign_all(d, add=True)
                return self
        self.assign_all(r)
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __imatmul__(self, o):
        self.assign_all(matmul(self, o))
        return self

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o, out=None):
        from . import symnp
        return symnp.dot(self, o, out)

    def sum(self, axis=None, keepdims=False, dtype=None):
        return asum(self, axis, keepdims)

    def mean(self, axis=None):
        return amean(self, axis)

    def min(self, axis=None, keepdims=False):
        from . import symnp
        return symnp.np.min(self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        from . import symnp
        return symnp.np.max(self, axis, keepdims)

    def any(self, axis=None):
        from . import symnp
        return symnp.np.any(self, axis)

    def all(self, axis=None):
        from . import symnp
        return symnp.np.all(self, axis)

    def ravel(self, order="C"):
        return self.reshape(-1, order=order)

    def flatten(self, order="C"):
        return self.reshape(-1, order=order).copy()

    def item(self, *a):
        if a:
            return self[a[0]]
        return self.reshape(-1)[0]

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def diagonal(self):
        """numpy diagonal() of axes 0 and 1: moved to the last axis"""
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("diagonal of symbolic dimension")
        parts = [self[k, k] for k in range(n)]
        if self.ndim == 2:
            return from_list(parts)
        st = stack(parts, 0)
        return st.transpose(list(range(1, st.ndim)) + [0])

    def astype(self, dt, copy=True):
        k = kind_of(dt)
        return emap(lambda a: coerce(k, a if not isinstance(a, B) or k == "b" else a.t), self, kind=k)

    def sort(self, axis=-1, kind=None):
        from . import symnp
        self.assign_all(symnp.sort(self, axis))

    def fill(self, v):
        self.assign_all(v)

    def __repr__(self):
        return f"<{type(self).__name__} {self.shape} {self.kind}>"


def _np_method(name):
    def method(self, *args, **kw):
        from . import symnp
        return getattr(symnp.np, name)(self, *args, **kw)
    method.__name__ = name
    return method


for _n in ("prod", "trace", "take", "repeat", "nonzero", "clip", "cumsum", "argmin", "argmax", "compress"):
    setattr(Arr, _n, _np_method(_n))


class NeNone:
    """result of array != None"""
    def any(self):
        return True

    def all(self):
        return True

    def __bool__(self):
        return True


class DType:
    def __init__(self, kind):
        self.vkind = kind

    @property
    def kind(self):
        return {"f4": "f"}.get(self.vkind, self.vkind)

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "f4": "float32", "o": "object"}[self.vkind]

    def __eq__(self, o):
        return kind_of(o) == self.vkind

    def __hash__(self):
        return hash(self.vkind)


def kind_of(dt):
    if dt is None:
        return "f"
    if isinstance(dt, DType):
        return dt.vkind
    if isinstance(dt, str):
        s = dt
    else:
        s = getattr(dt, "vname", None) or getattr(dt, "__name__", str(dt))
    s = s.lower()
    if s in ("int8", "int16", "uint8", "uint16", "float16", "half", "i1", "i2", "u1", "u2", "f2"):
        raise Unsupported(f"narrow number type {s}")
    if s in ("float32", "f4", "single"):
        return "f4"
    if s.startswith(("float", "f8", "double", "f")):
        return "f"
    if s.startswith("bool"):
        return "b"
    if s.startswith(("int", "long", "uint", "i")):
        return "i"
    if s.startswith("object"):
        return "o"
    raise Unsupported(f"dtype {dt!r}")


class CArr(Arr):
    __slots__ = ("a", "root", "kind")

    def __init__(self, cells, kind, root=None):
        self.a = cells
        self.kind = kind
        self.root = root if root is not None else CRoot(cells, kind)

    @property
    def shape(self):
        return self.a.shape

    def get(self, idx):
        idx = tuple(_cint(i) if isinstance(i, T) else i for i in idx)
        if all(isinstance(i, int) for i in idx):
            return self.a[tuple(idx)]
        return self._symget(idx)

    def _symget(self, idx):
        # symbolic index into concrete dims: selection by indicators
        for k, i in enumerate(idx):
            if isinstance(i, T):
                n = self.a.shape[k]
                r = None
                acc = None
                isb = False
                for j in range(n):
                    v = self.get(idx[:k] + (j,) + idx[k + 1:])
                    if isinstance(v, B):
                        isb = True
                        v = v.t
                    if not isinstance(v, T):
                        raise Unsupported("symbolic index into object array")
                    x = tm.ind_eq(i - j) * v
                    acc = x if acc is None else acc + x
                acc = acc if acc is not None else ZERO
                return B(acc) if isb else acc
        raise AssertionError

    def frozen(self):
        c = self.a.copy()
        me = CArr.__new__(CArr)
        me.a = c
        me.kind = self.kind
        me.root = None
        return me.get

    def copy(self, order="C"):
        return CArr(self.a.copy(), self.kind)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return CArr(self.a.transpose(*axes), self.kind, self.root)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(dim(s) for s in shape)
        if not all(isinstance(s, int) for s in shape):
            # symbolic spelling of a concrete size
            raise Unsupported("symbolic reshape of a concrete array")
        r = self.a.reshape(shape, order=order)
        if rnp.shares_memory(r, self.a):
            return CArr(r, self.kind, self.root)
        return CArr(r, self.kind)

    def __getitem__(self, item):
        items = item if isinstance(item, tuple) else (item,)
        items = tuple(_norm_item(i) for i in items)
        if any(isinstance(i, T) for i in items):
            return self._sym_index(items)
        if any(isinstance(i, SArr) for i in items):
            return fancy_get(self, items)
        nitems = []
        fancy = False
        for i in items:
            if isinstance(i, CArr):
                fancy = True
                if i.kind == "b":
                    nitems.append(rnp.array([bool(x) for x in i.a.ravel()], dtype=bool).reshape(i.a.shape))
                else:
                    if any(not lift(x).is_const() for x in i.a.ravel()):
                        return fancy_get(self, items)
                    nitems.append(rnp.array([int(x) for x in i.a.ravel()], dtype=int).reshape(i.a.shape))
            elif isinstance(i, list):
                fancy = True
                if i and isinstance(i[0], (bool, B)):
                    nitems.append(rnp.array([bool(x) for x in i], dtype=bool))
                else:
                    nitems.append(rnp.array([int(x) for x in i], dtype=int))
            elif isinstance(i, slice):
                nitems.append(_cslice(i))
            else:
                nitems.append(i)
        r = self.a[tuple(nitems)]
        if not isinstance(r, rnp.ndarray):
            return r
        if r.ndim == 0:
            return r.item()
        if fancy:
            return CArr(r, self.kind)
        return CArr(r, self.kind, self.root)

    def _sym_index(self, items):
        """some index is a symbolic scalar: select by indicators (result is a copy)"""
        for k, i in enumerate(items):
            if isinstance(i, T):
                if any(x is Ellipsis or x is None for x in items[:k]):
                    raise Unsupported("symbolic index after ellipsis")
                n = self.a.shape[k]
                ctx().check_def("index in range", (i >= 0) & (i < n))
                acc = None
                for j in range(n):
                    v = self[items[:k] + (j,) + items[k + 1:]]
                    x = v * tm.ind_eq(i - j)
                    acc = x if acc is None else acc + x
                return acc
        raise AssertionError

    def __setitem__(self, item, v):
        items = item if isinstance(item, tuple) else (item,)
        items = tuple(_norm_item(i) for i in items)
        g = ctx().guard()
        self.root.version += 1
        if any(isinstance(i, SArr) for i in items):
            raise Unsupported("store through a symbolic-length index")
        if sum(1 for i in items if isinstance(i, (Arr, list))) and any(
                isinstance(i, Arr) and any(not as01(x).is_const() if i.kind == "b" else not lift(x).is_const() for x in i.a.ravel())
                for i in items) and not (len(items) == 1 and items[0].kind == "b"
                         and items[0].shape == self.shape[:items[0].ndim] and not isinstance(v, (Arr, list, tuple))):
            fancy_set(self, items, v)
            return
        # index arrays with symbolic entries / symbolic scalars: sequential guarded cell writes
        symb = False
        for i in items:
            if isinstance(i, T):
                symb = True
            if isinstance(i, CArr) and i.kind != "b" and any(not lift(x).is_const() for x in i.a.ravel()):
                symb = True
        if symb:
            self._sym_store(items, v, g)
            return
        nitems = []
        for i in items:
            if isinstance(i, CArr):
                if i.kind == "b":
                    if g is not ONE or any(not as01(x).is_const() for x in i.a.ravel()):
                        self._mask_store(i, v, g)
                        return
                    nitems.append(rnp.array([bool(x) for x in i.a.ravel()], dtype=bool).reshape(i.a.shape))
                else:
                    nitems.append(rnp.array([int(x) for x in i.a.ravel()], dtype=int).reshape(i.a.shape))
            elif isinstance(i, list):
                nitems.append(rnp.array([int(x) for x in i], dtype=int))
            elif isinstance(i, slice):
                nitems.append(_cslice(i))
            else:
                nitems.append(i)
        nitems = tuple(nitems)
        if isinstance(v, SArr):
            raise ValueError("shape mismatch: symbolic into concrete")
        if isinstance(v, (list, tuple)):
            v = from_list(v)
        if isinstance(v, CArr):
            vv = v.a.copy()
        else:
            vv = rnp.empty((), dtype=object)
            vv[()] = val_lift(v)
        tgt = self.a[nitems]
        if isinstance(tgt, rnp.ndarray) and tgt.ndim:
            if vv.ndim > tgt.ndim and all(d == 1 for d in vv.shape[:vv.ndim - tgt.ndim]):
                vv = vv.reshape(vv.shape[vv.ndim - tgt.ndim:])
            vv = rnp.broadcast_to(vv, tgt.shape)
            new = rnp.empty(tgt.shape, dtype=object)
            for ix in rnp.ndindex(*tgt.shape):
                x = coerce(self.kind, val_lift(vv[ix]))
                new[ix] = x if g is ONE else merge(g, x, tgt[ix])
            self.a[nitems] = new
        else:
            if vv.ndim:
                vv = vv.reshape(())
            x = coerce(self.kind, val_lift(vv[()]))
            if g is not ONE:
                old = tgt if not isinstance(tgt, rnp.ndarray) else tgt[()]
                x = merge(g, x, old)
            self.a[nitems] = x

    def _mask_store(self, mask, v, g):
        if mask.a.shape != self.a.shape[:mask.ndim]:
            raise Unsupported("mask of another shape")
        if isinstance(v, (Arr, list, tuple)):
            raise Unsupported("guarded mask store of an array")
        for ix in rnp.ndindex(*self.a.shape):
            c = as01(mask.a[ix[:mask.ndim]]) * g
            self.a[ix] = merge(c, coerce(self.kind, val_lift(v)), self.a[ix])

    def _sym_store(self, items, v, g):
        for k, i in enumerate(items):
            if isinstance(i, T):
                n = self.a.shape[k]
                ctx().check_def("index in range", (i >= 0) & (i < n))
                for j in range(n):
                    c = tm.ind_eq(i - j)
                    if c is ZERO:
                        continue
                    ctx().guards.append(c)
                    try:
                        self[items[:k] + (j,) + items[k + 1:]] = v
                    finally:
                        ctx().guards.pop()
                return
            if isinstance(i, CArr):
                if i.ndim != 1:
                    raise Unsupported("multi-dimensional symbolic index store")
                vals = v.frozen() if isinstance(v, Arr) else None
                vsh = v.shape if isinstance(v, Arr) else ()
                rest_nd = self.ndim - len(items)
                for p in range(i.shape[0]):
                    if vals is None:
                        x = v
                    elif len(vsh) == self.ndim:
                        x = v[p] if vsh[0] != 1 else v[0]
                    else:
                        x = v
                    self[items[:k] + (i.a[p],) + items[k + 1:]] = x
                return
        raise AssertionError

    def assign_all(self, v):
        self[...] = v


def _norm_item(i):
    if isinstance(i, T):
        return _cint(i)
    if isinstance(i, B):
        return CArr(rnp.array(i, dtype=object), "b") if False else i
    if isinstance(i, bool):
        return i
    if isinstance(i, rnp.integer):
        return int(i)
    if isinstance(i, Fraction) and i.denominator == 1:
        raise IndexError("only integers are valid indices")
    if isinstance(i, list):
        if i and all(isinstance(x, (B, bool)) for x in i):
            return from_list(i)
        if i and any(isinstance(x, T) for x in i):
            return from_list(i)
    if isinstance(i, SymSeq):
        return i.to_arr()
    return i


def _cslice(s):
    def c(x):
        if x is None:
            return None
        x = dim(x)
        if not isinstance(x, int):
            from . import solve
            x = solve.value_in_model(lift(x), ctx().cur_facts())
            if x is None:
                raise Unsupported("symbolic slice of a concrete array")
        return x
    return slice(c(s.start), c(s.stop), c(s.step))


class SymSeq:
    """marker base for symbolic-length python sequences (see runtime)"""
    def to_arr(self):
        raise Unsupported("symbolic sequence")


class SArr(Arr):
    __slots__ = ("root", "shape", "fwd", "inv", "kind", "contig", "member")

    def __init__(self, root, shape, fwd, inv, kind, contig):
        self.root = root
        self.shape = tuple(shape)
        self.fwd = fwd
        self.inv = inv
        self.kind = kind
        self.contig = contig

    @staticmethod
    def new(shape, fn, kind="f"):
        shape = tuple(dim(d) for d in shape)
        root = SRoot(shape, fn, kind)
        return SArr(root, shape, None, None, kind, True)

    def get(self, idx):
        if self.fwd is not None:
            idx = self.fwd(tuple(idx))
        return self.root.read(idx)

    def frozen(self):
        st = self.root.state
        root, fwd = self.root, self.fwd

        def g(idx):
            if fwd is not None:
                idx = fwd(tuple(idx))
            return root.read(idx, st)
        return g

    def copy(self, order="C"):
        return SArr.new(self.shape, self.frozen(), self.kind)

    def view(self, shape, f, finv, contig):
        """f: new idx -> my idx ; finv: my idx -> (cond, new idx)"""
        of, oi = self.fwd, self.inv
        fwd = f if of is None else (lambda idx: of(f(idx)))
        if oi is None:
            inv = finv
        else:
            def inv(ridx):
                c, i1 = oi(ridx)
                if c is ZERO:
                    return ZERO, None
                c2, i2 = finv(i1)
                return c * c2, i2
        if all(isinstance(d, int) for d in shape):
            pass
        return SArr(self.root, shape, fwd, inv, self.kind, contig)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = tuple(a % n for a in axes)
        if axes == tuple(range(n)):
            return self
        invp = [axes.index(k) for k in range(n)]
        return self.view(
            tuple(self.shape[a] for a in axes),
            lambda idx: tuple(idx[invp[k]] for k in range(n)),
            lambda idx: (ONE, tuple(idx[a] for a in axes)),
            n <= 1 or sum(1 for d in self.shape if not _is1(d)) <= 1 and self.contig,
        )

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    # ---------------------------------------------------------- indexing
    def __getitem__(self, item):
        items = item if isinstance(item, tuple) else (item,)
        items = tuple(_norm_item(i) for i in items)
        if any(isinstance(i, (Arr, list)) for i in items):
            return fancy_get(self, items)
        v = self._basic(items)
        if v.ndim == 0:
            return v.get(())
        return v

    def _basic(self, items):
        n = self.ndim
        cnt = sum(1 for i in items if i is not None and i is not Ellipsis)
        out = []
        for i in items:
            if i is Ellipsis:
                out += [slice(None)] * (n - cnt)
            else:
                out.append(i)
        if Ellipsis not in [i if not isinstance(i, (Arr, T)) else 0 for i in items]:
            out += [slice(None)] * (n - cnt)
        if sum(1 for i in out if i is not None) > n:
            raise IndexError("too many indices for array")
        # plan per source dim
        plan = []     # for each source dim: ('int', value) | ('sl', start, newpos) | rev
        nshape = []
        k = 0
        contig = self.contig
        whole = True
        for i in out:
            if i is None:
                nshape.append(1)
                continue
            d = self.shape[k]
            if isinstance(i, slice):
                start, ln, step = norm_slice(i, d)
                plan.append(("sl", start, len(nshape), ln, step))
                nshape.append(ln)
                if not (isinstance(start, int) and start == 0 and lift(ln) is lift(d)) or step != 1:
                    whole = False
            elif isinstance(i, (int, T)) and not isinstance(i, bool):
                if isinstance(i, int):
                    if i < 0:
                        i = dim(lift(d) + i)
                    if isinstance(d, int):
                        if isinstance(i, int) and not 0 <= i < d:
                            raise IndexError("index out of bounds")
                    else:
                        ctx().check_def("index in range", (lift(i) >= 0) & (lift(i) < d))
                else:
                    ctx().check_def("index in range", (i >= 0) & (i < d))
                plan.append(("int", i))
                whole = False
            else:
                raise Unsupported(f"index {type(i).__name__}")
            k += 1

        def f(idx):
            r = []
            for p in plan:
                if p[0] == "int":
                    r.append(p[1])
                else:
                    x = idx[p[2]]
                    if p[4] == -1:
                        r.append(_add(p[1], _neg(x)))
                    else:
                        r.append(_add(p[1], x))
            return tuple(r)

        nd = len(nshape)

        def finv(idx):
            c = ONE
            r = [0] * nd
            for p, x in zip(plan, idx):
                if p[0] == "int":
                    c = c * tm.ind_eq(lift(x) - p[1])
                else:
                    if p[4] == -1:
                        y = _add(p[1], _neg(x))
                    else:
                        y = _add(x, _neg(p[1]))
                    r[p[2]] = y
                    if not (isinstance(p[1], int) and p[1] == 0 and whole_dim(p)):
                        ly = lift(y)
                        c = c * tm.ind_le(-ly) * tm.ind_le(ly + 1 - p[3])
                if c is ZERO:
                    return ZERO, None
            return c, tuple(r)

        shp = self.shape

        def whole_dim(p):
            j = plan.index(p)
            return p[4] == 1 and lift(p[3]) is lift(shp[j])

        ctg = False
        if contig:
            # leading ints, then whole dims except possibly first sliced
            lead = True
            ctg = True
            seen_slice = False
            for j, p in enumerate(plan):
                if p[0] == "int":
                    if seen_slice and not _is1(self.shape[j]):
                        ctg = False
                else:
                    if p[4] != 1:
                        ctg = False
                    if seen_slice and not whole_dim(p):
                        ctg = False
                    seen_slice = True
        return self.view(nshape, f, finv, ctg)

    def __setitem__(self, item, v):
        items = item if isinstance(item, tuple) else (item,)
        items = tuple(_norm_item(i) for i in items)
        if any(isinstance(i, (Arr, list)) for i in items):
            fancy_set(self, items, v)
            return
        self._basic(items).assign_all(v)

    def assign_all(self, v, add=False):
        """self[...] = v (or += v) with broadcasting"""
        if isinstance(v, (list, tuple)):
            v = from_list(v)
        if isinstance(v, Arr):
            vs = v.shape
            nd = self.ndim
            while len(vs) > nd and _is1(vs[0]):
                v = v.reshape(tuple(vs[1:])) if len(vs) > 1 else v
                vs = v.shape
            if len(vs) > nd:
                raise ValueError("could not broadcast")
            off = nd - len(vs)
            ones = []
            for k, d in enumerate(vs):
                if _is1(d) and not _is1(self.shape[k + off]):
                    ones.append(True)
                else:
                    if not dims_equal(d, self.shape[k + off]):
                        raise Unsupported(f"shapes {vs} and {self.shape} not provably equal")
                    ones.append(False)
            g = v.frozen()

            def val(idx):
                return g(tuple(0 if o else idx[k + off] for k, o in enumerate(ones)))
        else:
            x = val_lift(v)

            def val(idx):
                return x
        inv = self.inv or (lambda idx: (ONE, idx))
        self.root.write(inv, val, add)


def _is1(d):
    return isinstance(d, int) and d == 1


def _add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return _cint(lift(a) + b)


def _neg(a):
    return -a


def norm_slice(s, d):
    """(start, length, step) of slice s on dimension d, proving that it is in range"""
    step = s.step if s.step is not None else 1
    if isinstance(step, T):
        step = dim(step)
    if step not in (1, -1):
        if isinstance(d, int):
            raise Unsupported("strided slice")
        raise Unsupported("strided slice")
    if step == -1:
        if s.start is None and s.stop is None:
            return _add(d, -1), d, -1
        raise Unsupported("reversed partial slice")
    ld = lift(d)

    def norm(x, default):
        if x is None:
            return lift(default)
        x = lift(dim(x)) if not isinstance(x, T) else x
        if x.is_const():
            if x.const() < 0:
                x = ld + x
        f = ctx().cur_facts()
        if x.is_const() and x.const() == 0:
            return x
        if x is ld:
            return x
        if (x - ld).is_const() and not x.is_const():
            dd = (x - ld).const()
            if dd >= 0:
                return ld
        if f.implies((x >= 0) & (x <= ld)):
            return x
        if f.implies(x >= ld):
            return ld
        # clamp
        if f.implies(x >= 0):
            return tm.tmin(x, ld)
        if (x - ld).is_const():
            return tm.tmax(x, ZERO)
        raise Unsupported(f"slice bound {x!r} not provably in range of {ld!r}")

    a, b = norm(s.start, 0), norm(s.stop, d)
    ln = b - a
    if ln.is_const():
        ln = max(0, int(ln.const()))
    else:
        if not ctx().cur_facts().implies(a <= b):
            if ctx().cur_facts().implies(b <= a):
                ln = 0
            else:
                ln = tm.tmax(ln, ZERO)
    return dim(a), dim(ln), 1


# ------------------------------------------------------------------ constructors
def _obj(shape, f):
    a = rnp.empty(shape, dtype=object)
    for ix in rnp.ndindex(*shape):
        a[ix] = f(ix)
    return a


def make(shape, fn, kind="f"):
    """array with entries fn(idx)"""
    shape = tuple(dim(d) for d in shape)
    if all(isinstance(d, int) for d in shape):
        n = 1
        for d in shape:
            n *= d
        if n > 200000:
            raise Unsupported("huge concrete array")
        return CArr(_obj(shape, fn), kind)
    return SArr.new(shape, fn, kind)


def full(shape, v, kind="f"):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    v = coerce(kind, val_lift(v))
    return make(shape, lambda idx: v, kind)


_arrcount = [0]


def symbolic(name, shape, kind="f"):
    """an array of uninterpreted entries name(idx)"""
    isint = kind == "i"
    if kind == "b":
        return make(shape, lambda idx: B(tm.app(name, idx, True, True)), "b")
    return make(shape, lambda idx: tm.app(name, idx, isint), kind)


def infer_kind(vals):
    k = "b"
    for v in vals:
        if isinstance(v, B):
            continue
        if isinstance(v, T):
            if v.is_int() and not getattr(v, "_", False):
                if k == "b":
                    k = "i"
            else:
                k = "f"
        else:
            return "o"
    return k


class FloatT:
    pass


def from_list(x, kind=None):
    """np.array(nested list)"""
    if isinstance(x, Arr):
        return x.copy() if kind is None else x.astype(kind)
    if isnum(x) or isinstance(x, rnp.integer):
        a = rnp.empty((), dtype=object)
        a[()] = val_lift(x)
        return CArr(a, kind or infer_kind([a[()]]))
    if isinstance(x, SymSeq):
        return x.to_arr()
    if isinstance(x, range):
        x = list(x)
    if not isinstance(x, (list, tuple)):
        x = list(x)
    if len(x) == 0:
        return CArr(rnp.empty((0,), dtype=object), kind or "f")
    elems = []
    anyarr = False
    for e in x:
        if isinstance(e, (list, tuple, range, SymSeq)):
            e = from_list(e)
        if isinstance(e, Arr):
            anyarr = True
        elems.append(e)
    if anyarr:
        if not all(isinstance(e, Arr) for e in elems):
            raise ValueError("inhomogeneous array")
        r = stack(elems, 0)
        return r if kind is None else r.astype(kind)
    vals = [val_lift(e) for e in elems]
    k = kind or infer_kind(vals)
    if kind is None and k == "i" and any(isinstance(e, (Fraction, float)) for e in elems):
        k = "f"
    a = rnp.empty((len(vals),), dtype=object)
    for i, v in enumerate(vals):
        if k != "o":
            v = coerce(k, v if k == "b" else lift(v))
        a[i] = v
    return CArr(a, k)


def join_kind(*ks):
    for k in ("o", "f", "f4", "i", "b"):
        if k in ks:
            return k
    return "f"


def stack(parts, axis=0):
    sh = parts[0].shape
    for p in parts[1:]:
        if len(p.shape) != len(sh) or not all(dims_equal(a, b) for a, b in zip(p.shape, sh)):
            raise ValueError("all input arrays must have the same shape")
    fr = [p.frozen() for p in parts]
    n = len(parts)
    kind = join_kind(*[p.kind for p in parts])
    shape = sh[:axis] + (n,) + sh[axis:]

    def fn(idx):
        k = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if isinstance(k, int):
            return fr[k](rest)
        vals = [f(rest) for f in fr]
        if isinstance(vals[0], B):
            acc = ZERO
            for j, v in enumerate(vals):
                acc = acc + tm.ind_eq(k - j) * as01(v)
            return B(acc)
        acc = ZERO
        for j, v in enumerate(vals):
            acc = acc + tm.ind_eq(k - j) * lift(v)
        return acc
    return make(shape, fn, kind)


def concatenate(parts, axis=0):
    parts = [from_list(p) if not isinstance(p, Arr) else p for p in parts]
    nd = parts[0].ndim
    axis = axis % nd
    if len(parts) == 1:
        return parts[0].copy()
    for p in parts[1:]:
        for k in range(nd):
            if k != axis and not dims_equal(p.shape[k], parts[0].shape[k]):
                raise ValueError("all the input array dimensions must match")
    if nd >= 2 and not all(isinstance(dim(x), int) for k, x in enumerate(parts[0].shape) if k != axis):
        ln = parts[0].shape[axis]
        if not isinstance(dim(ln), int) and all(dims_equal(p.shape[axis], ln) for p in parts[1:]):
            # equal blocks: the same array as a stack with the two axes merged
            sh = list(parts[0].shape)
            sh[axis] = dim(lift(ln) * len(parts))
            return stack(parts, axis).reshape(tuple(sh))
    offs = []
    o = ZERO
    for p in parts:
        offs.append(o)
        o = o + lift(p.shape[axis])
    total = dim(o)
    fr = [p.frozen() for p in parts]
    kind = join_kind(*[p.kind for p in parts])
    shape = list(parts[0].shape)
    shape[axis] = total

    def fn(idx):
        k = idx[axis]
        # try syntactic location
        acc = None
        isb = kind == "b"
        res = ZERO
        for j, p in enumerate(parts):
            rel = lift(k) - offs[j]
            ln = lift(p.shape[axis])
            c = tm.ind_le(-rel) * tm.ind_le(rel + 1 - ln)
            if c is ZERO:
                continue
            if not c.is_const():
                d = ctx().cur_facts().decide(c)
                if d is True:
                    c = ONE
                elif d is False:
                    continue
            v = fr[j](tuple(idx[:axis]) + (_cint(rel),) + tuple(idx[axis + 1:]))
            if c is ONE:
                return v
            res = res + c * (as01(v) if isb else lift(v))
        return B(res) if isb else res
    return make(shape, fn, kind)


# ------------------------------------------------------------------ elementwise
def _sc(x):
    return not isinstance(x, Arr)


def broadcast_shape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            e = s[j]
            if _is1(e):
                continue
            if _is1(d):
                d = e
            elif isinstance(d, int) and isinstance(e, int):
                if d != e:
                    raise ValueError(f"operands could not be broadcast together {shapes}")
            elif not dims_equal(d, e):
                raise Unsupported(f"dimensions {d!r} and {e!r} not provably equal")
        out.append(d)
    return tuple(out)


def elementwise(op, args, kind):
    args = [from_list(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    shape = broadcast_shape([a.shape for a in arrs])
    fr = []
    for a in args:
        if isinstance(a, Arr):
            fr.append((a.frozen(), a.shape))
        else:
            fr.append((None, val_lift(a)))
    nd = len(shape)

    def fn(idx):
        vals = []
        for f, s in fr:
            if f is None:
                vals.append(s)
            else:
                off = nd - len(s)
                vals.append(f(tuple(0 if (_is1(s[k]) and not _is1(shape[k + off])) else idx[k + off] for k in range(len(s)))))
        return op(*vals)
    return make(shape, fn, kind)


def emap(op, a, kind=None):
    if _sc(a):
        return op(a)
    return elementwise(op, [a], kind or a.kind)


OPS = {
    "add": lambda a, b: lift(a) + lift(b),
    "sub": lambda a, b: lift(a) - lift(b),
    "mul": lambda a, b: lift(a) * lift(b),
    "div": lambda a, b: lift(a) / lift(b),
    "floordiv": lambda a, b: lift(a) // lift(b),
    "mod": lambda a, b: lift(a) % lift(b),
    "pow": lambda a, b: lift(a) ** lift(b),
    "and": lambda a, b: B(as01(a) * as01(b)),
    "or": lambda a, b: B(as01(a) + as01(b) - as01(a) * as01(b)),
    "eq": lambda a, b: (lift(a) == lift(b)),
    "ne": lambda a, b: (lift(a) != lift(b)),
    "lt": lambda a, b: (lift(a) < lift(b)),
    "le": lambda a, b: (lift(a) <= lift(b)),
    "gt": lambda a, b: (lift(a) > lift(b)),
    "ge": lambda a, b: (lift(a) >= lift(b)),
}


def scalar_kind(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool, B)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, T):
        return "i" if x.is_int() else "f"
    return "f"


def binop(name, a, b):
    for x in (a, b):
        if not (isinstance(x, Arr) or isnum(x) or isinstance(x, (list, tuple, rnp.integer))):
            if name in ("eq",):
                return False
            return NotImplemented
    if isinstance(a, (list, tuple)):
        a = from_list(a)
    if isinstance(b, (list, tuple)):
        b = from_list(b)
    if name in ("and", "or", "eq", "ne", "lt", "le", "gt", "ge"):
        k = "b"
    elif name == "div":
        k = "f"
    else:
        k = join_kind(scalar_kind(a), scalar_kind(b))
        if k == "b":
            k = "i"
        # python scalars do not upcast float32 arrays
        if "f4" in (scalar_kind(a), scalar_kind(b)):
            if (isinstance(a, Arr) and a.kind == "f4" and _sc(b)) or (isinstance(b, Arr) and b.kind == "f4" and _sc(a)):
                k = "f4"
    return elementwise(OPS[name], [a, b], k)


# ------------------------------------------------------------------ reductions
def big_sum(n, f, isb=False):
    """sum_{k<n} f(k)"""
    if isinstance(n, int):
        r = ZERO
        for k in range(n):
            r = r + lift(f(k))
        return r
    v = tm.fresh("k", True)
    c = ctx()
    old = c.facts
    c.facts = old.extend(v >= 0, v < n)
    try:
        body = lift(f(v))
    finally:
        c.facts = old
    return tm.mk_sum(v, 0, n, body)


def asum(a, axis=None, keepdims=False):
    if isinstance(a, (list, tuple)):
        a = from_list(a)
    if isnum(a):
        return lift(a)
    k = "i" if a.kind in ("b", "i") else a.kind
    if axis is None:
        g = a.frozen()

        def go(pref, j):
            if j == a.ndim:
                return lift(g(pref))
            return big_sum(a.shape[j], lambda x: go(pref + (x,), j + 1))
        return go((), 0)
    if isinstance(axis, (tuple, list)):
        r = a
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            r = asum(r, ax)
        return r
    axis = axis % a.ndim
    g = a.frozen()
    sh = a.shape[:axis] + ((1,) if keepdims else ()) + a.shape[axis + 1:]
    n = a.shape[axis]

    def fn(idx):
        pre = tuple(idx[:axis])
        post = tuple(idx[axis + 1:] if keepdims else idx[axis:])
        return big_sum(n, lambda x: g(pre + (x,) + post))
    if not sh:
        return fn(())
    return make(sh, fn, k)


def amean(a, axis=None):
    if isinstance(a, (list, tuple)):
        a = from_list(a)
    if axis is None:
        return asum(a) / lift(a.size)
    return asum(a, axis) / lift(a.shape[axis % a.ndim])


def aminmax(a, axis, which):
    f = tm.tmin if which == "min" else tm.tmax
    if isinstance(a, (list, tuple)):
        a = from_list(a)
    if axis is None:
        if all(isinstance(d, int) for d in a.shape):
            vals = [lift(x) for x in a.frozen_list()] if hasattr(a, "frozen_list") else [lift(a.get(ix)) for ix in rnp.ndindex(*a.shape)]
            r = vals[0]
            for v in vals[1:]:
                r = f(r, v)
            return r
        return opaque_minmax(a, which)
    axis = axis % a.ndim
    n = a.shape[axis]
    sh = a.shape[:axis] + a.shape[axis + 1:]
    g = a.frozen()
    if isinstance(n, int):
        def fn(idx):
            r = None
            for x in range(n):
                v = lift(g(tuple(idx[:axis]) + (x,) + tuple(idx[axis:])))
                r = v if r is None else f(r, v)
            return r
        if not sh:
            return fn(())
        return make(sh, fn, a.kind)
    if a.ndim == 1:
        return opaque_minmax(a, which)
    if all(isinstance(d, int) for d in sh):
        out = rnp.empty(sh, dtype=object)
        for ix in rnp.ndindex(*sh):
            col = make((n,), lambda i, ix=ix: g(tuple(ix[:axis]) + (i[0],) + tuple(ix[axis:])), a.kind)
            out[ix] = opaque_minmax(col, which)
        return CArr(out, a.kind)
    raise Unsupported("min/max over symbolic dimension")


_mm = [0]


def opaque_minmax(a, which):
    """library contract of np.min/np.max: a bound that is attained"""
    _mm[0] += 1
    if a.ndim != 1:
        raise Unsupported("min/max of a multi-dimensional symbolic array")
    g = a.frozen()
    n = a.shape[0]
    name = f"{which}!{_mm[0]}"
    # congruence: equal arrays have equal minima -> key by a generic entry
    v = tm.var("§§mm", True)
    key = (which, lift(g((v,))).key, lift(n).key)
    if key in _mm_cache:
        m, w = _mm_cache[key]
        ctx().assume((w >= 0) & (w < n), lift(g((w,))) == m)
        return m
    m = tm.app(name, (), is_int=False)
    w = tm.app(name + ".arg", (), is_int=True)
    c = ctx()
    c.check_def("min/max of a non-empty array", lift(n) >= 1)
    c.assume((w >= 0) & (w < n), lift(g((w,))) == m)
    MINMAX[name] = (which, n, g, m)
    _mm_cache[key] = (m, w)
    return m


_mm_cache = {}
MINMAX = {}


def aany(a):
    if isinstance(a, B):
        return a
    g = a.frozen()
    def go(pref, j):
        if j == a.ndim:
            return as01(g(pref))
        n = a.shape[j]
        if isinstance(n, int):
            r = ONE
            for x in range(n):
                r = r * (ONE - go(pref + (x,), j + 1))
            return ONE - r
        v = tm.fresh("e", True)
        return tm.mk_exists(v, 0, n, go(pref + (v,), j + 1))
    return B(go((), 0))


def aall(a):
    return ~aany(emap(lambda x: B(ONE - as01(x)), a, kind="b"))


def matmul(a, b):
    if isinstance(a, (list, tuple)):
        a = from_list(a)
    if isinstance(b, (list, tuple)):
        b = from_list(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        if not isinstance(a, Arr) and not isnum(a) or not isinstance(b, Arr) and not isnum(b):
            return NotImplemented
        raise ValueError("matmul: scalar operand")
    fa, fb = a.frozen(), b.frozen()
    kind = join_kind(a.kind, b.kind)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: 0-dimensional operand")
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if isinstance(n, int) and isinstance(m, int):
        if n != m:
            raise ValueError("matmul: dimension mismatch")
    elif not dims_equal(n, m):
        raise Unsupported(f"matmul: dimensions {n!r} and {m!r} not provably equal")
    if a.ndim == 1 and b.ndim == 1:
        return big_sum(n, lambda k: lift(fa((k,))) * lift(fb((k,))))
    if a.ndim == 2 and b.ndim == 1:
        return make((a.shape[0],), lambda i: big_sum(n, lambda k: lift(fa((i[0], k))) * lift(fb((k,)))), kind)
    if a.ndim == 1 and b.ndim == 2:
        return make((b.shape[1],), lambda i: big_sum(n, lambda k: lift(fa((k,))) * lift(fb((k, i[0])))), kind)
    if a.ndim == 2 and b.ndim == 2:
        return make((a.shape[0], b.shape[1]), lambda i: big_sum(n, lambda k: lift(fa((i[0], k))) * lift(fb((k, i[1])))), kind)
    if a.ndim == 1:
        return matmul(a[None, :], b)[..., 0, :]
    if b.ndim == 1:
        return matmul(a, b[:, None])[..., 0]
    batch = broadcast_shape([a.shape[:-2], b.shape[:-2]]) if a.ndim > 2 and b.ndim > 2 else (a.shape[:-2] or b.shape[:-2])
    nb = len(batch)

    def at(f, s, idx, i, j):
        off = nb - (len(s) - 2)
        return lift(f(tuple(0 if _is1(s[q]) and not _is1(batch[q + off]) else idx[q + off] for q in range(len(s) - 2)) + (i, j)))
    sa, sb = a.shape, b.shape
    return make(tuple(batch) + (a.shape[-2], b.shape[-1]),
                lambda idx: big_sum(n, lambda k: at(fa, sa, idx, idx[-2], k) * at(fb, sb, idx, k, idx[-1])), kind)


# ------------------------------------------------------------------ reshape
def exact_div(p, q):
    p, q = lift(p), lift(q)
    r = p * tm._inv(q)
    for a in r.atoms():
        if tm.atom(a).kind in ("inv", "inv1"):
            return None
    return r


def reshape(a, shape, order="C"):
    shape = list(shape)
    if order == "F":
        r = reshape_lin(a.transpose(), list(reversed(shape)))
        # a.T C-raveled == a F-raveled
        return r.transpose()
    return reshape_lin(a, shape)


def reshape_lin(a, shape):
    total = lift(1)
    for d in a.shape:
        total = total * d
    known = lift(1)
    neg = None
    # numpy takes any negative size for the unknown one
    shape = [-1 if (isinstance(s, int) and s < 0) else dim(s) for s in shape]
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            if neg is not None:
                raise ValueError("can only specify one unknown dimension")
            neg = k
        else:
            known = known * s
    if neg is not None:
        q = exact_div(total, known)
        if q is None:
            raise Unsupported(f"reshape {a.shape} -> {shape}")
        if any(v.denominator != 1 for v in lift(q).m.values()):
            c = ctx()
            if c.defchecks:
                c.defs_bad = getattr(c, "defs_bad", [])
                c.defs_bad.append(("reshape: the size is divisible", ZERO, c.cur_facts(), False))
        shape[neg] = dim(q)
    else:
        if total is not known and not dims_equal(total, known):
            raise ValueError(f"cannot reshape {a.shape} into {tuple(shape)}")
    src, dst = list(a.shape), list(shape)
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gi, gj = [], []
        pi, pj = lift(1), lift(1)
        if i < len(src):
            pi = pi * src[i]
            gi.append(i)
            i += 1
        if j < len(dst):
            pj = pj * dst[j]
            gj.append(j)
            j += 1
        while pi is not pj:
            # extend the side that divides the other
            r = exact_div(pi, pj) if pj is not ZERO else None
            if r is not None and j < len(dst):
                pj = pj * dst[j]
                gj.append(j)
                j += 1
            elif i < len(src):
                pi = pi * src[i]
                gi.append(i)
                i += 1
            elif j < len(dst):
                pj = pj * dst[j]
                gj.append(j)
                j += 1
            else:
                break
        groups.append((gi, gj))

    def lin_to(dims, p):
        """linear index p -> indices over dims (C order)"""
        out = []
        for k in range(len(dims)):
            st = lift(1)
            for d in dims[k + 1:]:
                st = st * d
            if _is1(dims[k]):
                out.append(0)
                continue
            rest_unit = all(_is1(d) for d in dims[k + 1:])
            lead_unit = all(_is1(d) for d in dims[:k])
            p_ = lift(p)
            q = p_ if rest_unit else tm.idiv(p_, st)
            if not lead_unit:
                q = tm.imod(q, lift(dims[k]))
            out.append(_cint(_simp_idx(q)))
        return out

    def to_lin(dims, idx):
        p = ZERO
        for d, x in zip(dims, idx):
            p = p * d + lift(x)
        return p

    def f(idx):
        out = [0] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = idx[gj[0]]
                continue
            p = to_lin([dst[k] for k in gj], [idx[k] for k in gj])
            for k, x in zip(gi, lin_to([src[k] for k in gi], p)):
                out[k] = x
        return tuple(out)

    def finv(idx):
        out = [0] * len(dst)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gj[0]] = idx[gi[0]]
                continue
            p = to_lin([src[k] for k in gi], [idx[k] for k in gi])
            for k, x in zip(gj, lin_to([dst[k] for k in gj], p)):
                out[k] = x
        return ONE, tuple(out)

    trivial = all(
        len([k for k in gi if not _is1(src[k])]) <= 1 and len([k for k in gj if not _is1(dst[k])]) <= 1
        for gi, gj in groups)
    if a.contig or trivial:
        return a.view(tuple(shape), f, finv, a.contig)
    g = a.frozen()
    return make(tuple(shape), lambda idx: g(f(idx)), a.kind)


def _simp_idx(q):
    """resolve floor divisions that the current facts decide"""
    q = lift(q)
    if not any(tm.atom(x).kind == "idiv" for x in q.atoms()):
        return q
    from .solve import simp, GENERATING
    if GENERATING[0]:
        return q
    return simp(q, ctx().cur_facts())


def squeeze(a, axis=None):
    if isnum(a):
        return a
    drop = [k for k, d in enumerate(a.shape) if _is1(d)] if axis is None else [axis % a.ndim]
    if len(drop) == a.ndim:
        return a.reshape(()) if isinstance(a, CArr) else a
    items = tuple(0 if k in drop else slice(None) for k in range(a.ndim))
    return a[items]


# ------------------------------------------------------------------ fancy indexing
def _is_scalar_index(i):
    return isinstance(i, (int, T, rnp.integer)) and not isinstance(i, bool)


class Adv:
    """numpy advanced indexing: `base` is a view in which slices, None and Ellipsis have been applied and every
    advanced position (index array, list, mask, scalar beside an array) is a full axis; `axes[q]` of base is indexed
    by reader `reads[q]` over the broadcast shape S, which stands at axis `at` of the result"""
    def __init__(self, a, items, store=False):
        items = [from_list(i, "i") if isinstance(i, list) and not i else from_list(i) if isinstance(i, list) else i for i in items]
        out = []
        n_used = 0
        for i in items:
            if i is None or i is Ellipsis:
                continue
            n_used += i.ndim if isinstance(i, Arr) and i.kind == "b" else 1
        if n_used > a.ndim:
            raise IndexError("too many indices for array")
        seen = False
        for i in items:
            if i is Ellipsis:
                if seen:
                    raise IndexError("an index can only have a single ellipsis")
                seen = True
                out += [slice(None)] * (a.ndim - n_used)
            else:
                out.append(i)
        if not seen:
            out += [slice(None)] * (a.ndim - n_used)
        basic, adv, flags = [], [], []
        for i in out:
            if isinstance(i, Arr) and i.kind == "b":
                idx = mask_positions(i)
                basic += [slice(None)] * len(idx)
                adv += idx
                flags += [True] * len(idx)
            elif isinstance(i, Arr):
                if i.kind != "i":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                basic.append(slice(None))
                adv.append(i)
                flags.append(True)
            elif _is_scalar_index(i):
                basic.append(slice(None))
                adv.append(i)
                flags.append(True)
            elif i is None or isinstance(i, slice):
                basic.append(i)
                flags.append(False)
            else:
                raise Unsupported(f"index {type(i).__name__}")
        where = [q for q, f in enumerate(flags) if f]
        together = where == list(range(where[0], where[-1] + 1))
        if isinstance(a, CArr) and store and not all(isinstance(x, slice) and x == slice(None) for x in basic):
            self.base = a[tuple(basic)]
            if not rnp.shares_memory(self.base.a, a.a):
                raise Unsupported("store through a copied view")
        else:
            self.base = a if all(isinstance(x, slice) and x == slice(None) for x in basic) else a[tuple(basic)]
        self.axes = where
        self.at = where[0] if together else 0
        self.S = broadcast_shape([i.shape for i in adv if isinstance(i, Arr)])
        nS = len(self.S)
        self.reads = []
        c = ctx()
        for ax, i in zip(self.axes, adv):
            d = self.base.shape[ax]
            if isinstance(i, Arr):
                off = nS - i.ndim
                fi = i.frozen()

                def rd(s, fi=fi, off=off, sh=i.shape, d=d):
                    x = _cint(lift(fi(tuple(0 if (_is1(sh[q]) and not _is1(self.S[q + off])) else s[q + off] for q in range(len(sh))))))
                    return _wrap(x, d)
                cells = None
                if all(isinstance(q, int) for q in i.shape):
                    cells = [lift(fi(ix)) for ix in rnp.ndindex(*i.shape)]
                if cells is not None:
                    for x in cells:
                        _in_range(x, d)
                else:
                    vs = [tm.fresh("f", True) for _ in i.shape]
                    old = c.facts
                    c.facts = old.extend(*[g for v, q in zip(vs, i.shape) for g in (v >= 0, v < q)])
                    try:
                        x = lift(fi(tuple(vs)))
                        c.check_def("index in range", (x >= 0) & (x < d))
                    finally:
                        c.facts = old
            else:
                i = _cint(lift(i))
                _in_range(lift(i), d)

                def rd(s, i=i, d=d):
                    return _wrap(i, d)
            self.reads.append(rd)
        rest = [q for q in range(self.base.ndim) if q not in self.axes]
        self.rest = rest
        self.pre = [q for q in rest if q < self.at] if together else []
        self.post = [q for q in rest if q not in self.pre]
        b = self.base.shape
        self.shape = tuple(b[q] for q in self.pre) + tuple(self.S) + tuple(b[q] for q in self.post)

    def to_base(self, idx):
        """index of the result -> index of base"""
        np_, ns = len(self.pre), len(self.S)
        s = tuple(idx[np_:np_ + ns])
        out = [None] * self.base.ndim
        for q, x in zip(self.pre, idx[:np_]):
            out[q] = x
        for q, x in zip(self.post, idx[np_ + ns:]):
            out[q] = x
        for q, r in zip(self.axes, self.reads):
            out[q] = r(s)
        return tuple(out)

    def from_base(self, bidx, s):
        """index of the result with the index-array position s and the remaining indices of base index bidx"""
        return tuple(bidx[q] for q in self.pre) + tuple(s) + tuple(bidx[q] for q in self.post)


def _in_range(x, d):
    if x.is_const() and isinstance(d, int):
        if not -d <= int(x.const()) < d:
            raise IndexError("index out of bounds")
        return
    if x.is_const() and x.const() < 0:
        ctx().check_def("index in range", lift(d) + x >= 0)
        return
    ctx().check_def("index in range", (x >= 0) & (x < d))


def _wrap(x, d):
    if isinstance(x, int) and x < 0:
        return dim(lift(d) + x)
    return x


def mask_positions(mask):
    """index arrays of the True entries of a mask"""
    if all(isinstance(d, int) for d in mask.shape):
        pos = [ix for ix in rnp.ndindex(*mask.shape) if bool(mask.get(ix))]
        return [from_list([p[q] for p in pos], "i") for q in range(mask.ndim)]
    if mask.ndim != 1:
        raise Unsupported("mask of rank > 1")
    sel, cnt = selection(mask)
    return [make((cnt,), lambda i: sel(lift(i[0])), "i")]


def fancy_get(a, items):
    """advanced indexing"""
    items = list(items)
    pos = [k for k, i in enumerate(items) if isinstance(i, (Arr, list))]
    if any(isinstance(i, bool) or isinstance(i, B) for i in items):
        raise Unsupported("boolean scalar index")
    if len(pos) == 1 and len(items) == 1 and isinstance(items[0], Arr) and items[0].kind == "b" and items[0].ndim == 1:
        return mask_get(a, 0, items[0], items)
    v = Adv(a, items)
    g = v.base.frozen()
    return make(v.shape, lambda idx: g(v.to_base(tuple(idx))), a.kind)


SELECTIONS = {}
_sel = [0]


def mask_get(a, k, mask, items):
    """boolean mask on axis k (1-d mask of symbolic length): library contract of compression"""
    if k != 0 or len(items) != 1:
        raise Unsupported("mask on inner axis")
    if isinstance(mask, CArr) and all(isinstance(d, int) for d in mask.shape) and mask.ndim == 1:
        sel = [j for j in range(mask.shape[0]) if bool(mask.a[j])]
        return fancy_get(a, [from_list(sel, "i")])
    if mask.ndim != 1:
        raise Unsupported("mask of rank > 1")
    sel, cnt = selection(mask)
    g = a.frozen()
    return make((cnt,) + tuple(a.shape[1:]), lambda idx: g((sel(idx[0]),) + tuple(idx[1:])), a.kind)


def selection(mask):
    """positions of True entries, in ascending order (contract of numpy boolean indexing)"""
    from . import solve
    fm = mask.frozen()
    n = mask.shape[0]
    v = tm.var("§§sel", True)
    key = (as01(fm((v,))).key, lift(n).key)
    if key in SELECTIONS:
        return SELECTIONS[key]
    _sel[0] += 1
    nm = f"sel!{_sel[0]}"
    rk = f"rank!{_sel[0]}"
    kk = tm.fresh("k", True)
    cnt = tm.mk_sum(kk, 0, n, as01(fm((kk,))))
    cntv = tm.app(nm + ".n", (), is_int=True)

    def sel(j):
        j = lift(j)
        if tm.app_of(j) == rk:
            # positions and ranks are inverse on the mask; outside it neither is constrained, and they are
            # chosen inverse there too (ranks outside 0..count, one for every such position)
            return tm.app_arg(j)
        return tm.app(nm, (j,), is_int=True)

    def facts(j):
        s = sel(j)
        inr = (j >= 0) & (j < cntv)
        if tm.app_of(lift(j)) == rk:
            return [~inr | ((s >= 0) & (s < n) & B(as01(fm((s,)))))]
        return [
            ~inr | ((s >= 0) & (s < n) & B(as01(fm((s,))))),
            ~inr | (tm.app(rk, (s,), is_int=True) == j),
            ~inr | (s >= j),
        ]

    def rfacts(p):
        if tm.app_of(lift(p)) == nm:
            return []
        inr = (p >= 0) & (p < n) & B(as01(fm((p,))))
        r = tm.app(rk, (p,), is_int=True)
        return [~inr | ((r >= 0) & (r < cntv) & (sel(r) == p))]
    solve.FUN_FACTS[nm] = facts
    solve.FUN_FACTS[rk] = rfacts
    ctx().assume(cntv >= 0, cntv <= n)
    SEL_INFO[nm] = dict(rank=rk, count=cntv, sumcount=cnt, mask=fm, n=n)
    SELECTIONS[key] = (sel, cntv)
    return sel, cntv


SEL_INFO = {}


def _value_reader(v, shape):
    """reader of v broadcast to shape"""
    if isinstance(v, (list, tuple)):
        v = from_list(v)
    if not isinstance(v, Arr):
        x = val_lift(v)
        return lambda idx: x
    vs = tuple(v.shape)
    drop = 0
    while len(vs) - drop > len(shape) and _is1(vs[drop]):
        drop += 1
    off = len(shape) - (len(vs) - drop)
    if off < 0:
        raise ValueError("could not broadcast")
    g = v.frozen()
    one = []
    for q, d in enumerate(vs[drop:]):
        e = shape[q + off]
        if _is1(d) and not _is1(e):
            one.append(True)
        elif isinstance(d, int) and isinstance(e, int) and d != e:
            raise ValueError("shape mismatch")
        elif not dims_equal(d, e):
            raise Unsupported(f"shapes {vs} and {shape} not provably equal")
        else:
            one.append(False)
    return lambda idx: g((0,) * drop + tuple(0 if o else idx[q + off] for q, o in enumerate(one)))


def fancy_set(a, items, v):
    items = list(items)
    masks = [i for i in items if isinstance(i, Arr) and i.kind == "b"]
    if len(items) == 1 and len(masks) == 1 and isinstance(a, SArr) and (not isinstance(v, (Arr, list, tuple))):
        # scalar stored under a mask of the leading axes
        I = masks[0]
        fm = I.frozen()
        nm = I.ndim
        for d, e in zip(I.shape, a.shape):
            if not dims_equal(d, e):
                raise Unsupported("mask of another shape")
        x = val_lift(v)
        inv = a.inv or (lambda idx: (ONE, idx))

        def match(ridx):
            c, i2 = inv(ridx)
            if c is ZERO:
                return c, None
            return c * as01(fm(tuple(i2[:nm]))), i2
        a.root.write(match, lambda o: x)
        return
    A_ = Adv(a, items, store=True)
    if isinstance(v, Arr):
        v = v.copy()
    val = _value_reader(v, A_.shape)
    base = A_.base
    if all(isinstance(d, int) for d in A_.S):
        for s in rnp.ndindex(*A_.S):
            key = [slice(None)] * base.ndim
            for q, r in zip(A_.axes, A_.reads):
                key[q] = r(s)
            rest = tuple(base.shape[q] for q in A_.rest)

            def one(idx, s=s):
                full_idx = [None] * base.ndim
                for q, x in zip(A_.rest, idx):
                    full_idx[q] = x
                return val(A_.from_base(full_idx, s))
            base[tuple(key)] = make(rest, one, a.kind) if rest else one(())
        return
    if isinstance(a, CArr) or len(A_.S) != 1:
        raise Unsupported("store through a symbolic-length index array")
    # symbolic length: the inverse of the index map is needed: a range, or the positions of a mask
    kk = tm.fresh("k", True)
    n = A_.S[0]
    es = [lift(r((kk,))) for r in A_.reads]
    varying = [q for q, e in enumerate(es) if tm.vid(kk) in e.fv()]
    if len(varying) < 1:
        raise Unsupported("store through a constant index array of symbolic length")
    pick = varying[0]
    e = es[pick]
    off = e - kk
    if tm.vid(kk) not in off.fv():
        def inverse(x):
            j = lift(x) - off
            return as01(j >= 0) * as01(j < n), j
    else:
        nm = tm.app_of(e)
        info = SEL_INFO.get(nm)
        if info is None or not e is tm.app(nm, (kk,), is_int=True) or lift(n) is not lift(info["count"]):
            raise Unsupported("store through a symbolic-length index array")

        def inverse(x):
            x = lift(x)
            inside = ONE if dims_equal(info["n"], base.shape[A_.axes[pick]]) else as01(x >= 0) * as01(x < info["n"])
            return inside * as01(info["mask"]((x,))), tm.app(info["rank"], (x,), is_int=True)
    inv = base.inv or (lambda idx: (ONE, idx))

    def match(ridx):
        c, b = inv(ridx)
        if c is ZERO:
            return ZERO, None
        c2, j = inverse(b[A_.axes[pick]])
        c = c * c2
        for q, r in enumerate(A_.reads):
            if q != pick:
                c = c * tm.ind_eq(lift(b[A_.axes[q]]) - lift(r((j,))))
        if c is ZERO:
            return ZERO, None
        return c, A_.from_base(b, (j,))
    base.root.write(match, val)


def add_at(a, item, v, sign=1):
    """numpy.add.at: unbuffered a[item] += v, repeated indices accumulate"""
    items = list(item) if isinstance(item, tuple) else [item]
    items = [_norm_item(i) for i in items]
    if not any(isinstance(i, (Arr, list)) for i in items):
        t = a[tuple(items)]
        a[tuple(items)] = t + v if sign == 1 else t - v
        return
    A_ = Adv(a, items, store=True)
    if isinstance(v, Arr):
        v = v.copy()
    val = _value_reader(v, A_.shape)
    base = A_.base

    def total(b):
        def go(k, s):
            if k == len(A_.S):
                r = lift(val(A_.from_base(b, s)))
                for q, rd in zip(A_.axes, A_.reads):
                    r = r * tm.ind_eq(lift(rd(s)) - lift(b[q]))
                return r
            return big_sum(A_.S[k], lambda x: go(k + 1, s + (x,)))
        r = go(0, ())
        return r if sign == 1 else -r
    if isinstance(base, CArr):
        g = ctx().guard()
        new = rnp.empty(base.shape, dtype=object)
        for ix in rnp.ndindex(*base.shape):
            new[ix] = lift(base.a[ix]) + g * total(ix)
        base.root.version += 1
        for ix in rnp.ndindex(*base.shape):
            base.a[ix] = coerce(base.kind, new[ix])
        return
    inv = base.inv or (lambda idx: (ONE, idx))
    base.root.write(inv, total, add=True)


def fresh_like(a, name):
    """array of the same shape with uninterpreted content"""
    return symbolic(name, a.shape, "f" if a.kind == "f4" else a.kind)
