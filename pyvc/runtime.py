"""Runtime of the instrumented code: control flow, effects and the loop rule."""
import itertools
import operator
import types
from fractions import Fraction
import numpy as rnp

from . import term as tm
from . import solve
from . import arr as A
from . import ctx as C
from .term import T, B, ZERO, ONE, lift, as01, Unsupported
from .arr import Arr, CArr, SArr, SymSeq, CRoot, SRoot, merge, val_lift
from .ctx import ctx


class NeedFork(BaseException):
    """a conditional cannot be merged: explore its branches as separate paths"""
    def __init__(self, site):
        super().__init__(site)
        self.site = site


class Poison:
    """value of a variable that is not determined at this point; any use is an error of the verifier"""
    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of an undetermined value: " + object.__getattribute__(self, "why"))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._bad()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __call__ = _bad
    __bool__ = __len__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __neg__ = _bad
    __setitem__ = __contains__ = __rtruediv__ = __matmul__ = __rmatmul__ = __index__ = __pow__ = _bad


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class SymIter:
    """an iterable of symbolic length: n items, item(k)"""
    def __init__(self, n, item):
        self.n = n
        self.item = item


class SymList(SymSeq):
    """a Python sequence of symbolic length"""
    def __init__(self, n, item):
        self.n = A.dim(n)
        self.item = item

    def vlen(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, ln, step = A.norm_slice(i, self.n)
            if step == 1:
                return SymList(ln, lambda k: self.item(lift(k) + st))
            return SymList(ln, lambda k: self.item(lift(st) - k))
        i = lift(i)
        if i.is_const() and i.const() < 0:
            i = lift(self.n) + i
        ctx().check_def("index in range", (i >= 0) & (i < self.n))
        return self.item(i)

    def __len__(self):
        raise Unsupported("len() of a symbolic list outside the verified code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list outside the verified code")

    def __bool__(self):
        return bool(lift(self.n) > 0)

    def to_arr(self):
        k = tm.fresh("q", True)
        c = ctx()
        old = c.facts
        c.facts = old.extend(k >= 0, k < self.n)
        try:
            probe = self.item(k)
        finally:
            c.facts = old
        if isinstance(probe, SymSeq):
            probe = probe.to_arr()
        if isinstance(probe, (list, tuple)):
            probe = A.from_list(probe)
        if isinstance(probe, Arr):
            sh = probe.shape

            def fn(idx):
                v = self.item(lift(idx[0]))
                if isinstance(v, (list, tuple)):
                    v = A.from_list(v)
                if isinstance(v, SymSeq):
                    v = v.to_arr()
                return v.get(tuple(idx[1:]))
            return A.make((self.n,) + tuple(sh), fn, probe.kind)
        return A.make((self.n,), lambda idx: val_lift(self.item(lift(idx[0]))), A.scalar_kind(probe))


class SymRange(SymList):
    def __init__(self, lo, hi):
        lo, hi = lift(lo), lift(hi)
        n = hi - lo
        if n.is_const():
            n = max(0, int(n.const()))
        elif not ctx().cur_facts().implies(n >= 0):
            n = tm.tmax(n, ZERO)
        self.lo = lo
        super().__init__(n, lambda k: A._cint(lo + k))


def eager(n, item):
    """item(k) for one generic k in [0, n), evaluated now (the state may change later); falls back to delayed evaluation"""
    c = ctx()
    k = tm.fresh("g", True)
    old = c.facts
    before = [(w(), w().version) for w in c.roots if w() is not None]
    log0, c.attr_log = c.attr_log, []
    c.facts = old.extend(k >= 0, k < n)
    try:
        fz = _freeze(item(k), k)
    finally:
        c.facts = old
        log, c.attr_log = c.attr_log, log0
        if log0 is not None:
            log0.extend(log)
    if any(r.version != v for r, v in before):
        raise Unsupported("array modified inside a comprehension")
    if fz is None:
        return item
    return fz


def _freeze(v, k):
    kid = tm.vid(k)
    if v is None or isinstance(v, (bool, int, float, str)):
        return lambda j: v
    if isinstance(v, T):
        return lambda j: A._cint(tm.subst(v, {kid: lift(j)}))
    if isinstance(v, B):
        return lambda j: vtruth(B(tm.subst(v.t, {kid: lift(j)})))
    if isinstance(v, (tuple, list)):
        parts = [_freeze(x, k) for x in v]
        if any(p is None for p in parts):
            return None
        return lambda j: type(v)(p(j) for p in parts)
    if isinstance(v, Arr):
        if any(not isinstance(d, int) and kid in lift(d).fv() for d in v.shape):
            return None
        sym = [a for a, d in enumerate(v.shape) if not isinstance(d, int)]
        con = [range(d) for d in v.shape if isinstance(d, int)]
        gs = [tm.fresh("h", True) for _ in sym]
        c = ctx()
        old = c.facts
        c.facts = old.extend(*[b for g, a in zip(gs, sym) for b in (g >= 0, g < v.shape[a])])
        kind, shape = v.kind, v.shape
        cells = {}
        try:
            for combo in itertools.product(*con):
                it = iter(combo)
                ig = iter(gs)
                idx = tuple(next(ig) if a in sym else next(it) for a in range(len(shape)))
                cells[combo] = v.get(idx)
        finally:
            c.facts = old

        def at(j):
            def fn(idx):
                combo = []
                sub = {kid: lift(j)}
                ig = iter(gs)
                sel = []
                for a, i in enumerate(idx):
                    if a in sym:
                        sub[tm.vid(next(ig))] = lift(i)
                    else:
                        i = A._cint(lift(i))
                        sel.append(i)
                if all(isinstance(i, int) for i in sel):
                    x = cells[tuple(sel)]
                    return B(tm.subst(x.t, sub)) if isinstance(x, B) else tm.subst(lift(x), sub) if isinstance(x, T) else x
                r = None
                for combo, x in cells.items():
                    x = B(tm.subst(x.t, sub)) if isinstance(x, B) else tm.subst(lift(x), sub)
                    m = ONE
                    for i, q in zip(sel, combo):
                        m = m * tm.ind_eq(lift(i) - q)
                    r = x if r is None else A.merge(m, x, r)
                return r
            return A.make(shape, fn, kind)
        return at
    if isinstance(v, SymList):
        return None
    return None


def as_iter(x):
    """concrete list, or SymIter"""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, SymList):
        if isinstance(x.n, int):
            return [x.item(lift(k)) for k in range(x.n)]
        return SymIter(x.n, x.item)
    if isinstance(x, Arr):
        n = x.shape[0]
        if isinstance(n, int):
            return [x[k] for k in range(n)]
        return SymIter(n, lambda k: x[k])
    if isinstance(x, dict):
        return list(x)
    if isinstance(x, (list, tuple, range, str, set, frozenset)):
        return x
    return x        # generators, iterators


def is_sym(x):
    return isinstance(x, SymIter)


def vtruth(x):
    """Python truth value of x as bool or B (no fork)"""
    if isinstance(x, B):
        t = x.t
        if t.is_const():
            return bool(t.const())
        return x
    if isinstance(x, T):
        if x.is_const():
            return bool(x.const())
        return vtruth(x != 0)
    if isinstance(x, SymList):
        return vtruth(lift(x.n) > 0) if not isinstance(x.n, int) else x.n > 0
    if isinstance(x, Arr):
        if all(isinstance(d, int) for d in x.shape) and x.size == 1:
            return vtruth(x.get((0,) * x.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous")
    return bool(x)


def mergeable(c, a, b):
    """ite(c, a, b) on arbitrary values; raises Unmergeable"""
    if a is b:
        return a
    if isinstance(a, (str, type(None), type)) or isinstance(b, (str, type(None), type)):
        if type(a) is type(b) and a == b:
            return a
        raise Unmergeable(f"{a!r} / {b!r}")
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("merged with an undetermined value")
    if A.isnum(a) and A.isnum(b):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            r = B(c * as01(a) + (ONE - c) * as01(b))
            return bool(r.t.const()) if r.t.is_const() else r
        r = c * lift(a) + (ONE - c) * lift(b)
        return r
    if isinstance(a, (CArr,)) and a.ndim == 0 or isinstance(b, CArr) and b.ndim == 0:
        raise Unmergeable("0-d array")
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim or not all(A.dims_equal(x, y) for x, y in zip(a.shape, b.shape)):
            raise Unmergeable("arrays of different shapes")
        if (a.root is b.root) and a.kind == b.kind:
            pass
        fa, fb = a.frozen(), b.frozen()
        r = A.make(a.shape, lambda idx: merge(c, fa(idx), fb(idx)), A.join_kind(a.kind, b.kind))
        r.root.readonly = "array merged from two branches"
        return r
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        return type(a)(mergeable(c, x, y) for x, y in zip(a, b))
    raise Unmergeable(f"{type(a).__name__} / {type(b).__name__}")


class Unmergeable(BaseException):
    pass


class Effects:
    """snapshot of the variables, arrays and attributes that a region may modify"""
    def __init__(self, cells):
        c = ctx()
        self.cells = cells
        self.cell0 = [_cell(x) for x in cells]
        self.roots = []
        for w in c.roots:
            r = w()
            if r is not None:
                self.roots.append((r, r.version, r.snapshot()))
        self.log0 = c.attr_log
        c.attr_log = []

    def finish(self):
        c = ctx()
        self.log = c.attr_log
        c.attr_log = self.log0

    def written_roots(self):
        return [(r, s) for r, v, s in self.roots if r.version != v]

    def attrs(self):
        seen = {}
        for obj, name, had, old in self.log:
            if (id(obj), name) not in seen:
                seen[(id(obj), name)] = (obj, name, had, old)
        return list(seen.values())

    def rollback(self):
        for x, v in zip(self.cells, self.cell0):
            _setcell(x, v)
        for r, v, s in self.roots:
            if r.version != v:
                r.restore(s)
                r.version = v
        for obj, name, had, old in reversed(self.log):
            if had:
                _rawset(obj, name, old)
            else:
                try:
                    del obj.__dict__[name]
                except KeyError:
                    pass


def _rawset(obj, name, v):
    if hasattr(obj, "__dict__"):
        obj.__dict__[name] = v
    else:
        object.__setattr__(obj, name, v)


def _cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return UNBOUND


def _setcell(c, v):
    if v is UNBOUND:
        try:
            del c.cell_contents
        except ValueError:
            pass
    else:
        c.cell_contents = v


def cells_of(fns, names):
    out = {}
    for f in fns:
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                out[n] = c
    miss = [n for n in names if n not in out]
    if miss:
        raise Unsupported(f"variables {miss} not reachable")
    return [out[n] for n in names]


_loop_uid = [0]


class VC:
    """the _vc_ object seen by the instrumented code"""

    def __init__(self):
        self.executed = {}
        self.invariants = {}
        self.mutable_types = (list, dict, set)

    # ------------------------------------------------------------ literals and operators
    @staticmethod
    def F(s):
        return Fraction(s)

    @staticmethod
    def div(a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return Fraction(a) / Fraction(b)
        if isinstance(a, B):
            a = a.t
        if isinstance(b, B):
            b = b.t
        return a / b

    @staticmethod
    def pow(a, b):
        if isinstance(a, B):
            a = a.t
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if isinstance(b, int) or b.denominator == 1:
                return a ** int(b) if b >= 0 else Fraction(a) ** int(b)
            return lift(a) ** b
        return a ** b

    @staticmethod
    def slice(a, b, c):
        return slice(a, b, c)

    @staticmethod
    def compare(op, a, b):
        if isinstance(a, (CArr, SArr)) or isinstance(b, (CArr, SArr)):
            pass
        return getattr(operator, op)(a, b)

    def chain(self, ops, *vals):
        res = True
        for op, a, b in zip(ops, vals, vals[1:]):
            if op == "in":
                x = self.contains(a, b)
            elif op == "notin":
                x = self.not_(self.contains(a, b))
            elif op == "is":
                x = a is b
            elif op == "isnot":
                x = a is not b
            else:
                x = getattr(operator, op)(a, b)
            if res is True:
                res = x
            else:
                res = self._and2(res, x)
            if res is False:
                return False
        return res

    @staticmethod
    def _and2(a, b):
        a, b = vtruth(a), vtruth(b)
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return vtruth(B(a.t * b.t))

    def _decide(self, x):
        """bool, or undecided B"""
        x = vtruth(x)
        if isinstance(x, bool):
            return x
        d = ctx().cur_facts().decide(x.t)
        return x if d is None else d

    def and_(self, *ths):
        acc = True
        c = ctx()
        pushed = 0
        last = True
        try:
            for th in ths:
                v = th()
                t = self._decide(v)
                if isinstance(t, bool):
                    if not t:
                        if acc is True:
                            return v
                        return False
                    last = v
                    continue
                acc = t if acc is True else B(acc.t * t.t)
                c.guards.append(t.t)
                pushed += 1
        finally:
            for _ in range(pushed):
                c.guards.pop()
        return last if acc is True else acc

    def or_(self, *ths):
        acc = False
        c = ctx()
        pushed = 0
        last = False
        try:
            for th in ths:
                v = th()
                t = self._decide(v)
                if isinstance(t, bool):
                    if t:
                        if acc is False:
                            return v
                        return True
                    last = v
                    continue
                acc = t if acc is False else (acc | t)
                c.guards.append(ONE - t.t)
                pushed += 1
        finally:
            for _ in range(pushed):
                c.guards.pop()
        return last if acc is False else acc

    @staticmethod
    def not_(x):
        x = vtruth(x)
        return (not x) if isinstance(x, bool) else ~x

    def truth(self, x):
        x = vtruth(x)
        if isinstance(x, bool):
            return x
        c = ctx()
        d = c.cur_facts().decide(x.t)
        if d is not None:
            return d
        if c.guards:
            raise NeedFork(c.site_stack[0]) if getattr(c, "site_stack", None) and not c.loop_depth else Unsupported(
                "control flow on a symbolic condition inside a merged branch")
        if c.loop_depth:
            raise Unsupported("control flow on a symbolic condition inside a symbolic loop")
        return c.truth(x)

    def ifexp(self, cond, a, b):
        t = self._decide(cond)
        if isinstance(t, bool):
            return a() if t else b()
        c = ctx()
        c.guards.append(t.t)
        try:
            x = a()
        finally:
            c.guards.pop()
        c.guards.append(ONE - t.t)
        try:
            y = b()
        finally:
            c.guards.pop()
        try:
            return mergeable(t.t, x, y)
        except Unmergeable:
            return x if self.truth(t) else y

    def contains(self, x, y):
        member = getattr(y, "member", None)
        if member is not None:
            return member(x)
        if isinstance(y, Arr):
            return A.aany(y == x)
        if isinstance(y, SymList):
            return A.aany(y.to_arr() == x)
        if isinstance(y, dict) or isinstance(y, (str, bytes)):
            return x in y
        if isinstance(y, (list, tuple, set, frozenset, range)):
            if not isinstance(x, (T, B)) and not any(isinstance(e, (T, B, Arr)) for e in y):
                return x in y
            r = False
            for e in y:
                if e is x:
                    return True
                q = (e == x)
                q = vtruth(q)
                if q is True:
                    return True
                if q is False:
                    continue
                r = q if r is False else (r | q)
            return r
        return x in y

    # ------------------------------------------------------------ stores
    def setattr(self, obj, name, v):
        c = ctx()
        d = getattr(obj, "__dict__", None)
        had = d is not None and name in d
        old = d[name] if had else None
        if c.guards and d is not None and not isinstance(obj, types.ModuleType):
            if had:
                try:
                    v = mergeable(c.guard(), v, old)
                except Unmergeable as e:
                    self._need_fork(str(e))
            elif getattr(obj, "_vc_new_depth", None) != len(c.guards):
                # attribute created in one branch only: allowed for objects made in the branch
                if not self._is_new(obj):
                    self._need_fork(f"attribute {name} created in one branch")
        cls_attr = getattr(type(obj), name, None)
        if c.attr_log is not None and d is not None:
            c.attr_log.append((obj, name, had, old))
        setattr(obj, name, v)

    def _is_new(self, obj):
        return True

    def _need_fork(self, why):
        c = ctx()
        if c.loop_depth or not getattr(c, "site_stack", None):
            raise Unsupported(why)
        raise NeedFork(c.site_stack[0])

    def setitem(self, obj, key, v):
        c = ctx()
        if isinstance(obj, Arr):
            ro = getattr(obj.root, "readonly", None)
            if ro:
                self._need_fork("store into an " + ro)
            obj[key] = v
            return
        if isinstance(obj, self.mutable_types):
            if c.guards:
                if isinstance(obj, list) and isinstance(key, int):
                    try:
                        v = mergeable(c.guard(), v, obj[key])
                    except Unmergeable as e:
                        self._need_fork(str(e))
                elif isinstance(obj, dict) and key in obj:
                    try:
                        v = mergeable(c.guard(), v, obj[key])
                    except Unmergeable as e:
                        self._need_fork(str(e))
                else:
                    self._need_fork("store into a container inside a merged branch")
            if c.loop_depth and not getattr(c, "loop_local", False):
                if not self._local_container(obj):
                    raise Unsupported("store into a container inside a symbolic loop")
        if isinstance(key, T) and isinstance(obj, list):
            key = int(key)
        obj[key] = v

    def _local_container(self, obj):
        """was the container created in the current iteration? (tracked by identity)"""
        c = ctx()
        known = getattr(c, "loop_known", None)
        return known is None or id(obj) not in known

    AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "FloorDiv": operator.ifloordiv,
           "Mod": operator.imod, "MatMult": operator.imatmul, "BitOr": operator.ior, "BitAnd": operator.iand,
           "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift}

    def _aug(self, op, old, v):
        if op == "Div":
            if isinstance(old, Arr):
                old /= v
                return old
            if hasattr(type(old), "__itruediv__"):
                return operator.itruediv(old, v)
            return self.div(old, v)
        if op == "Pow":
            return self.pow(old, v)
        if isinstance(old, B):
            old = old.t
        if isinstance(old, Arr) and getattr(old.root, "readonly", None):
            self._need_fork("in-place operation on an " + old.root.readonly)
        if isinstance(old, list) and (ctx().guards or (ctx().loop_depth and not self._local_container(old))):
            self._need_fork("list extension inside a merged branch")
        return self.AUG[op](old, v)

    def augname(self, old, op, v):
        return self._aug(op, old, v)

    def augattr(self, obj, name, op, v):
        self.setattr(obj, name, self._aug(op, getattr(obj, name), v))

    def augitem(self, obj, key, op, v):
        if isinstance(obj, Arr):
            if getattr(obj.root, "readonly", None):
                self._need_fork("store into an " + obj.root.readonly)
            if isinstance(key, (Arr, list)) and self._aug_distinct(obj, key, op, v):
                return
            old = obj[key]
            if isinstance(old, Arr) and old.root is obj.root:
                old = self._aug(op, old, v)      # in place on the view
                return
            if op == "Div":
                new = old / v if isinstance(old, (Arr, T)) else self.div(old, v)
            elif op == "Pow":
                new = self.pow(old, v)
            else:
                new = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv,
                       "Mod": operator.mod, "BitOr": operator.or_, "BitAnd": operator.and_}[op](old, v)
            obj[key] = new
            return
        self.setitem(obj, key, self._aug(op, obj[key], v))

    def _aug_distinct(self, obj, key, op, v):
        """a[I] op= v with pairwise distinct entries of I: entry by entry"""
        I = key if isinstance(key, Arr) else A.from_list(key)
        if I.ndim != 1 or I.kind != "i" or not isinstance(I.shape[0], int):
            return False
        idx = [lift(I.get((p,))) for p in range(I.shape[0])]
        f = ctx().cur_facts()
        for p in range(len(idx)):
            for q in range(p):
                if f.decide(tm.ind_eq(idx[p] - idx[q])) is not False:
                    return False
        m = len(idx)
        if isinstance(v, (list, tuple)):
            v = A.from_list(v)
        if isinstance(v, Arr):
            if v.ndim > obj.ndim:
                return False
            v = v.copy()
        for p in range(m):
            x = v
            if isinstance(v, Arr) and v.ndim == obj.ndim:
                x = v[0 if A._is1(v.shape[0]) else p]
            self.augitem(obj, idx[p], op, x)
        return True

    def mutate(self, obj, meth, *args, **kw):
        c = ctx()
        if isinstance(obj, self.mutable_types):
            if getattr(c, "inv_depth", 0) and id(obj) in c.inv_known:
                raise Unsupported(f"{meth} on a container inside a loop with an invariant")
            if c.guards:
                if not self._local_container(obj) or not c.loop_depth:
                    self._need_fork(f"{meth} inside a merged branch")
                raise Unsupported(f"{meth} inside a merged branch")
            if c.loop_depth and not self._local_container(obj):
                la = getattr(c, "loop_appends", None)
                if meth == "append" and la is not None and isinstance(obj, list):
                    la.append((obj, args[0]))
                    return None
                raise Unsupported(f"{meth} on a container inside a symbolic loop")
        if isinstance(obj, SymList):
            if meth == "append" and not c.guards and not c.loop_depth:
                n0, it0, v = obj.n, obj.item, args[0]
                obj.item = lambda k: (v if A._cint(lift(k)) is n0 or lift(k) is lift(n0) else it0(k))
                obj.n = A.dim(lift(n0) + 1)
                return None
            raise Unsupported(f"{meth} on a symbolic list")
        return getattr(obj, meth)(*args, **kw)

    # ------------------------------------------------------------ control flow
    def entered(self, qual):
        self.executed[qual] = self.executed.get(qual, 0) + 1
        cov = getattr(ctx(), "executed", None)
        if cov is None:
            ctx().executed = cov = {}
        cov[qual] = cov.get(qual, 0) + 1

    def while_iter(self, site):
        c = ctx()
        w = c.__dict__.setdefault("while_counts", {})
        w[site] = w.get(site, 0) + 1
        if w[site] > 2000:
            raise Unsupported(f"while loop at {site} runs without a bound")

    def while_(self, test, body, names, site):
        rule = getattr(ctx(), "while_rule", None)
        if rule is not None and rule(self, test, body, names, site):
            return
        if self.counted(test, body, names, site):
            return
        open_ = 0
        while True:
            t = self._decide(test())
            if not isinstance(t, bool):
                open_ += 1
                if open_ > 40:
                    raise Unsupported(f"while loop at {site} without a bound the verifier sees")
                t = self.truth(t)
            if not t:
                return
            body()

    def counted(self, test, body, names, site):
        """while i < n: ...; i += 1 is the loop over range(i, n); the counter, the bound and the step are checked in every iteration"""
        if not test.__closure__:
            return False
        reads = {n: x for n, x in zip(test.__code__.co_freevars, test.__closure__)}
        for nm in names:
            if nm not in reads:
                continue
            cell, = cells_of((body,), [nm])
            v0 = _cell(cell)
            if reads[nm] is not cell or isinstance(v0, bool) or not (isinstance(v0, int) or (isinstance(v0, T) and v0.is_int())):
                continue

            def last():
                """u where the test reads counter <= u"""
                old, z = _cell(cell), tm.fresh("counter", True)
                _setcell(cell, z)
                try:
                    t = vtruth(test())
                finally:
                    _setcell(cell, old)
                if isinstance(t, bool):
                    return None
                u = None
                for e, flip in ((t.t, False), (ONE - t.t, True)):
                    if len(e.m) == 1:
                        (k, q), = e.m.items()
                        at = tm._atom_list[k[0][0]] if len(k) == 1 and k[0][1] == 1 and q == 1 else None
                        if at is not None and at.kind == "ind" and at.args[0] == "le":
                            p = ONE - at.args[1] if flip else at.args[1]
                            u = z - p
                        elif at is not None and at.kind == "ind" and at.args[0] == "eq" and flip:
                            end = next((x for x in (z - at.args[1], z + at.args[1]) if not x.fv() & z.fv()), None)
                            if end is not None and ctx().cur_facts().decide(tm.ind_le(lift(v0) - end)) is True:
                                u = end - 1
                if u is None:
                    return None
                return None if u.fv() & z.fv() else u
            u = last()
            if u is None or not u.is_int():
                continue
            n = u - lift(v0) + 1
            if n.is_const():
                return False
            facts = ctx().cur_facts()
            if facts.decide(tm.ind_le(-n)) is not True and not ctx().truth(B(tm.ind_le(-n))):
                return True

            def turn(k):
                here = lift(v0) + lift(k)
                _setcell(cell, here)
                now = last()
                if now is None or now is not u and not A.dims_equal(now, u):
                    raise Unsupported(f"the bound of the loop at {site} changes")
                body()
                if not A.dims_equal(lift(_cell(cell)), here + 1):
                    raise Unsupported(f"the counter of the loop at {site} does not advance by one")
            self.loop(SymList(A.dim(n), lambda k: lift(k)), _Turn(turn, body), names, site)
            _setcell(cell, lift(v0) + n)
            return True
        return False

    def branch(self, cond, then, els, names, site):
        t = self._decide(cond)
        if isinstance(t, bool):
            (then if t else els)()
            return
        c = ctx()
        if (site in FORK_SITES or c.no_merge) and not c.guards and not c.loop_depth:
            (then if c.truth(t) else els)()
            return
        stack = c.__dict__.setdefault("site_stack", [])
        cells = cells_of((then, els), names)
        pre = [_cell(x) for x in cells]
        stack.append(site)
        try:
            c.guards.append(t.t)
            try:
                then()
            finally:
                c.guards.pop()
            post1 = [_cell(x) for x in cells]
            for x, v in zip(cells, pre):
                _setcell(x, v)
            c.guards.append(ONE - t.t)
            try:
                els()
            finally:
                c.guards.pop()
            post2 = [_cell(x) for x in cells]
            for x, n, a, b in zip(cells, names, post1, post2):
                if a is b:
                    continue
                if a is UNBOUND or b is UNBOUND:
                    _setcell(x, Poison(f"{n} is assigned in one branch only"))
                    continue
                try:
                    _setcell(x, mergeable(t.t, a, b))
                except Unmergeable as e:
                    self._need_fork(f"{n}: {e}")
        except (Unsupported, NeedFork, C.PathAbort):
            raise
        except Exception:
            self._need_fork("exception in a merged branch")
        finally:
            stack.pop()

    def concrete_iter(self, x):
        it = as_iter(x)
        if is_sym(it):
            if isinstance(it.n, int):
                return [it.item(lift(k)) for k in range(it.n)]
            raise Unsupported("loop with early exit over a symbolic range")
        return it

    @staticmethod
    def unpack(x, n):
        if isinstance(x, Arr):
            if not isinstance(x.shape[0], int):
                raise Unsupported("unpacking a symbolic dimension")
            x = [x[k] for k in range(x.shape[0])]
        if isinstance(x, SymList):
            if not isinstance(x.n, int):
                raise Unsupported("unpacking a symbolic list")
            x = [x.item(lift(k)) for k in range(x.n)]
        if isinstance(x, T) or isinstance(x, B):
            raise TypeError("cannot unpack non-iterable value")
        x = list(x)
        if len(x) != n:
            raise ValueError(f"not enough/too many values to unpack (expected {n}, got {len(x)})")
        return x

    def comp(self, kind, it, f, nargs, cond):
        it = as_iter(it)
        call = (lambda x: f(*self.unpack(x, nargs))) if nargs else f
        ccall = None
        if cond is not None:
            ccall = (lambda x: cond(*self.unpack(x, nargs))) if nargs else cond
        if not is_sym(it):
            out = []
            for x in it:
                if ccall is not None and not self.truth(ccall(x)):
                    continue
                out.append(call(x))
            if kind == "set":
                return set(out)
            if kind == "gen":
                return iter(out)
            return out
        if kind == "set":
            raise Unsupported("set of symbolic size")
        if ccall is not None:
            # selection of the items that satisfy the condition
            cond_at = eager(it.n, lambda k: B(as01(vtruth(ccall(it.item(lift(k)))))))
            mask = A.make((it.n,), lambda idx: B(as01(cond_at(lift(idx[0])))), "b")
            sel, cnt = A.selection(mask)
            item_at = eager(it.n, lambda k: call(it.item(lift(k))))
            return SymList(cnt, lambda k: item_at(sel(k)))
        return SymList(it.n, eager(it.n, lambda k: call(it.item(lift(k)))))

    # ------------------------------------------------------------ the loop rule
    def loop(self, iterable, body, names, site):
        it = as_iter(iterable)
        if not is_sym(it) or isinstance(it.n, int):
            if is_sym(it):
                it = [it.item(lift(k)) for k in range(it.n)]
            for x in it:
                body(x)
            return
        rule = getattr(ctx(), "inv_rule", None)
        if rule is not None and rule(self, it, body, names, site):
            return
        run_loop(self, it, body, names, site)


FORK_SITES = set()


class _Turn:
    """the body of a counted while loop as a function of the iteration"""

    def __init__(self, f, body):
        self.f, self.__closure__, self.__code__ = f, body.__closure__, body.__code__

    def __call__(self, k):
        return self.f(k)


def _flatten(v, path=()):
    """leaves of a value that can be havocked: (path, leaf)"""
    if isinstance(v, (tuple, list)):
        out = []
        for k, x in enumerate(v):
            out += _flatten(x, path + (k,))
        return out
    return [(path, v)]


def _rebuild(v, f, path=()):
    if isinstance(v, (tuple, list)):
        return type(v)(_rebuild(x, f, path + (k,)) for k, x in enumerate(v))
    return f(path, v)


class Item:
    """one loop-modified quantity: scalar (dims ()) or array-valued"""
    def __init__(self, label, hname, dims, x0, kind):
        self.label = label
        self.hname = hname
        self.dims = dims
        self.x0 = x0          # idx -> T
        self.kind = kind
        self.closed = None    # (j, idx) -> T : value before iteration j
        self.E = None         # T over k and idx vars
        self.last = None


def kindof(v):
    if isinstance(v, Arr):
        return v.kind
    return A.scalar_kind(v)


def run_loop(vc, it, body, names, site):
    c = ctx()
    n = lift(it.n)
    _loop_uid[0] += 1
    uid = _loop_uid[0]
    cells = cells_of((body,), names)
    k = tm.fresh(f"it{uid}_", True)
    kid = tm.vid(k)
    saved_facts = c.facts
    saved_def = c.defchecks
    saved_known = getattr(c, "loop_known", None)
    saved_appends = getattr(c, "loop_appends", None)
    pre_cells = [_cell(x) for x in cells]

    def iterate(havoc, defs):
        """run the body once for the generic iteration k; returns the effects (not rolled back)"""
        eff = Effects(cells)
        c.loop_depth += 1
        c.facts = saved_facts.extend(k >= 0, k < n)
        c.defchecks = defs
        c.loop_appends = []
        c.loop_vars = getattr(c, "loop_vars", ()) + (kid,)
        try:
            havoc()
            for r, v, s in eff.roots:
                pass
            body(it.item(k))
            eff.appends = c.loop_appends
            eff.facts_after = c.facts
            return eff
        finally:
            eff.finish()
            c.loop_depth -= 1
            c.defchecks = saved_def
            c.loop_appends = saved_appends
            c.loop_vars = c.loop_vars[:-1]

    # containers that existed before the loop
    import gc
    known = set(saved_known or ())
    for x in pre_cells:
        if isinstance(x, (list, dict, set)):
            known.add(id(x))
    fv = {}
    if body.__closure__:
        for nme, cl in zip(body.__code__.co_freevars, body.__closure__):
            v = _cell(cl)
            if isinstance(v, (list, dict, set)):
                known.add(id(v))
            elif hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.ModuleType)):
                for w in vars(v).values():
                    if isinstance(w, (list, dict, set)):
                        known.add(id(w))
    c.loop_known = known
    try:
        mod_cells, mod_roots, mod_attrs = set(), {}, {}
        float_items = set()
        for attempt in range(6):
            # build havoc
            items = []
            holders = []

            def hv(label, v):
                """havocked version of value v"""
                leaves = {}

                def one(path, x):
                    lab = label + "".join(f"[{p}]" for p in path)
                    if isinstance(x, Poison) or x is UNBOUND:
                        return x
                    if A.isnum(x):
                        kd = kindof(x)
                        if lab in float_items:
                            kd = "f"
                        h = f"H{uid}!{lab}"
                        items.append(Item(lab, h, (), (lambda idx, x=x: x), kd))
                        t = tm.app(h, (k,), is_int=kd in ("i", "b"), is01=(kd == "b"))
                        leaves[path] = items[-1]
                        return B(t) if kd == "b" else t
                    if isinstance(x, Arr):
                        kd = x.kind if x.kind != "f4" else "f"
                        if lab in float_items:
                            kd = "f"
                        h = f"H{uid}!{lab}"
                        fr = x.frozen()
                        items.append(Item(lab, h, x.shape, fr, kd))
                        leaves[path] = items[-1]
                        if kd == "o":
                            raise Unsupported("object array modified in a symbolic loop")
                        return A.make(x.shape, lambda idx: (lambda t: B(t) if kd == "b" else t)(
                            tm.app(h, (k,) + tuple(lift(i) for i in idx), kd in ("i", "b"), kd == "b")), kd)
                    return Poison(f"{lab} changes in a loop ({type(x).__name__})")
                return _rebuild(v, one), leaves

            def havoc():
                holders.clear()
                items.clear()
                for i, (nm, cl) in enumerate(zip(names, cells)):
                    if i in mod_cells and pre_cells[i] is not UNBOUND:
                        v, lv = hv(nm, pre_cells[i])
                        holders.append(("cell", i, pre_cells[i], lv))
                        _setcell(cl, v)
                for j, (rid, (r, lab)) in enumerate(mod_roots.items()):
                    h = f"H{uid}!{lab}"
                    kd = "f" if (r.kind == "f4" or lab in float_items) else r.kind
                    if isinstance(r, SRoot):
                        st = r.state
                        items.append(Item(lab, h, r.shp, (lambda idx, r=r, st=st: r.read(idx, st)), kd))
                        r.restore(((lambda idx, h=h, kd=kd: (lambda t: B(t) if kd == "b" else t)(
                            tm.app(h, (k,) + tuple(lift(i) for i in idx), kd in ("i", "b"), kd == "b"))), ()))
                        r.version += 1
                    else:
                        old = r.cells.copy()
                        items.append(Item(lab, h, r.cells.shape, (lambda idx, old=old: old[tuple(idx)]), kd))
                        for ix in rnp.ndindex(*r.cells.shape):
                            t = tm.app(h, (k,) + tuple(lift(i) for i in ix), kd in ("i", "b"), kd == "b")
                            r.cells[ix] = B(t) if kd == "b" else t
                        r.version += 1
                    holders.append(("root", r, items[-1]))
                for (oid, nm), (obj, lab, old) in mod_attrs.items():
                    v, lv = hv(lab, old)
                    holders.append(("attr", obj, nm, old, lv))
                    c.attr_log.append((obj, nm, True, old))
                    _rawset(obj, nm, v)

            eff = iterate(havoc, False)
            if eff.appends:
                apps = eff.appends
            # what was modified?
            grown = False
            for i, cl in enumerate(cells):
                v = _cell(cl)
                if v is not pre_cells[i] and i not in mod_cells:
                    mod_cells.add(i)
                    grown = True
            for r, s in eff.written_roots():
                if id(r) not in mod_roots:
                    mod_roots[id(r)] = (r, f"arr{len(mod_roots)}")
                    grown = True
            for obj, nm, had, old in eff.attrs():
                if (id(obj), nm) not in mod_attrs:
                    if not had:
                        raise Unsupported(f"attribute {nm} created in a symbolic loop")
                    mod_attrs[(id(obj), nm)] = (obj, f"attr_{nm}{len(mod_attrs)}", old)
                    grown = True
            if grown:
                eff.rollback()
                continue
            # collect the values after the iteration
            kinds_changed = collect(eff, cells, holders, items, k, n, saved_facts, float_items, uid, names, pre_cells)
            post_vals = {i: _cell(cl) for i, cl in enumerate(cells)}
            eff.rollback()
            if kinds_changed:
                continue
            break
        else:
            raise Unsupported(f"loop at {site}: modified set does not stabilise")
        new_facts = [f for f in eff.facts_after.all if f not in saved_facts.all]
        extra = [f for f in new_facts if f is not as01(k >= 0) and f is not as01(k < n)]
        if extra:
            # facts assumed inside the iteration (library contracts) hold for every iteration only
            # as instances; they may be lost here
            c.lost_facts = getattr(c, "lost_facts", 0) + len(extra)
        ff = saved_facts.extend(k >= 0, k < n, *[B(x) for x in extra])
        solve_recurrences(items, k, n, ff, uid, site, vc)
        # well-definedness of the body with the closed forms known
        if saved_def:
            solved, kept = list(items), list(holders)
            define_heads(solved, k, n)
            eff2 = iterate(havoc, True)
            eff2.rollback()
            undefine_heads(solved)
            items[:] = solved
            holders[:] = kept
    finally:
        c.facts = saved_facts
        c.loop_known = saved_known
        c.defchecks = saved_def
    # final state
    nonempty = saved_facts.decide(as01(n >= 1))
    held = set()
    for h in holders:
        if h[0] == "cell":
            _, i, v0, lv = h
            held.add(i)

            def fin(path, x, lv=lv):
                itm = lv.get(path)
                if itm is None:
                    return Poison("changed in a loop")
                return final_value(itm, n)
            _setcell(cells[i], _rebuild(v0, fin))
        elif h[0] == "root":
            _, r, itm = h
            if isinstance(r, SRoot):
                r.restore(((lambda idx, itm=itm: wrapk(itm.kind, itm.closed(n, tuple(lift(i) for i in idx)))), ()))
                g = c.guard()
                r.version += 1
            else:
                for ix in rnp.ndindex(*r.cells.shape):
                    r.cells[ix] = wrapk(itm.kind, itm.closed(n, tuple(lift(i) for i in ix)))
                r.version += 1
        else:
            _, obj, nm, old, lv = h

            def fin2(path, x, lv=lv):
                itm = lv.get(path)
                if itm is None:
                    return Poison("changed in a loop")
                return final_value(itm, n)
            if c.attr_log is not None:
                c.attr_log.append((obj, nm, True, old))
            _rawset(obj, nm, _rebuild(old, fin2))
    # variables first bound inside the loop: the last iteration's value
    for i, cl in enumerate(cells):
        if i in mod_cells and i not in held:
            v = post_vals[i]
            if v is UNBOUND:
                continue
            if nonempty is True:
                def lastv(path, x):
                    if A.isnum(x):
                        return last_value(lift(x) if not isinstance(x, (B, bool)) else x, items, k, kid, n)
                    if isinstance(x, Arr):
                        fr = x.frozen()
                        return A.make([A.dim(tm.subst(lift(d), {kid: n - 1})) for d in x.shape],
                                      lambda idx: last_value(fr(idx), items, k, kid, n), x.kind)
                    if isinstance(x, (str, type(None))):
                        return x
                    return Poison("object bound in a loop")
                _setcell(cl, _rebuild(v, lastv))
            else:
                _setcell(cl, Poison(f"{names[i]} is bound only if the loop runs"))
    # appended lists
    if getattr(eff, "appends", None):
        groups = {}
        for lst, v in eff.appends:
            groups.setdefault(id(lst), (lst, []))[1].append(v)
        for lst, vals in groups.values():
            append_list(vc, lst, vals, items, k, kid, n, cells, body)


def append_list(vc, lst, vals, items, k, kid, n, cells, body):
    m = len(vals)
    pre = list(lst)

    def leaf(j, x):
        sub = {kid: j}

        def go(x):
            if isinstance(x, (B, bool)):
                return x if isinstance(x, bool) else B(tm.subst(x.t, sub))
            if isinstance(x, (int, Fraction)):
                return x
            if isinstance(x, T):
                for itm in items:
                    x = tm.subst_fun(x, itm.hname, lambda *a, itm=itm: itm.closed(a[0], a[1:]))
                return tm.subst(x, sub)
            if isinstance(x, Arr):
                fr = x.frozen()
                return A.make([A.dim(tm.subst(lift(d), sub)) for d in x.shape], lambda idx: go(fr(idx)), x.kind)
            if isinstance(x, (tuple, list)):
                return type(x)(go(y) for y in x)
            raise Unsupported("object appended in a symbolic loop")
        return go(x)
    np_ = len(pre)

    def item(q):
        q = lift(q)
        if q.is_const() and q.const() < np_:
            return pre[int(q.const())]
        p = q - np_
        if m == 1:
            return leaf(p, vals[0])
        blk, r = tm.idiv(p, lift(m)), tm.imod(p, lift(m))
        r = solve.simp(r, ctx().cur_facts())
        if r.is_const():
            return leaf(blk, vals[int(r.const())])
        vs = [leaf(blk, v) for v in vals]
        if all(isinstance(v, (T, int, Fraction)) for v in vs):
            acc = ZERO
            for e, v in enumerate(vs):
                acc = acc + tm.ind_eq(r - e) * lift(v)
            return acc
        if all(isinstance(v, (Arr, tuple, list)) for v in vs):
            st = A.stack([v if isinstance(v, Arr) else A.from_list(v) for v in vs], 0)
            return A.make(st.shape[1:], lambda idx: st.get((r,) + tuple(idx)), st.kind)
        raise Unsupported("several objects appended per iteration")
    sl = SymList(A.dim(n * m + np_), item)
    # rebind every variable that holds the list
    replaced = False
    if body.__closure__:
        for nme, cl in zip(body.__code__.co_freevars, body.__closure__):
            if _cell(cl) is lst:
                cl.cell_contents = sl
                replaced = True
    if not replaced:
        raise Unsupported("append to a list that is not a local variable, in a symbolic loop")


def wrapk(kind, t):
    if kind == "b":
        return B(t)
    return t


def final_value(itm, n):
    if itm.dims == ():
        r = itm.closed(n, ())
        return wrapk(itm.kind, r)
    return A.make(itm.dims, lambda idx: wrapk(itm.kind, itm.closed(n, tuple(lift(i) for i in idx))), itm.kind)


def last_value(x, items, k, kid, n):
    isb = isinstance(x, (B, bool))
    t = as01(x) if isb else lift(x)
    for itm in items:
        t = tm.subst_fun(t, itm.hname, lambda *a, itm=itm: itm.closed(a[0], a[1:]))
    t = tm.subst(t, {kid: n - 1})
    return B(t) if isb else t


def collect(eff, cells, holders, items, k, n, facts, float_items, uid, names, pre_cells):
    """after a generic iteration: E of every item. Returns True if a dtype had to be widened."""
    changed = False
    c = ctx()
    for h in holders:
        if h[0] == "root":
            _, r, itm = h
            vs = [tm.fresh(f"x{j}_", True) for j in range(len(itm.dims))]
            itm.vs = vs
            if isinstance(r, SRoot):
                old = c.facts
                fs = []
                for v, d in zip(vs, itm.dims):
                    fs += [v >= 0, v < d]
                c.facts = old.extend(*fs)
                try:
                    e = r.read(tuple(vs))
                finally:
                    c.facts = old
                itm.E = as01(e) if itm.kind == "b" else lift(e)
                itm.E_at = None
            else:
                snap = r.cells.copy()
                itm.E = None
                itm.E_at = lambda ix, snap=snap, itm=itm: (as01(snap[ix]) if itm.kind == "b" else lift(snap[ix]))
            continue
        if h[0] == "cell":
            _, i, v0, lv = h
            now = _cell(cells[i])
        else:
            _, obj, nm, v0, lv = h
            now = obj.__dict__[nm]
        leaves_now = dict(_flatten(now))
        for path, itm in lv.items():
            x = leaves_now.get(path)
            if x is None and path not in leaves_now:
                raise Unsupported(f"{itm.label}: structure changes in a loop")
            vs = [tm.fresh(f"x{j}_", True) for j in range(len(itm.dims))]
            itm.vs = vs
            itm.E_at = None
            if itm.dims == ():
                if not A.isnum(x):
                    raise Unsupported(f"{itm.label}: type changes in a loop")
                kd = kindof(x)
                if kd == "f" and itm.kind in ("i", "b"):
                    float_items.add(itm.label)
                    changed = True
                itm.E = as01(x) if itm.kind == "b" and kd == "b" else lift(x)
            else:
                if not isinstance(x, Arr) or len(x.shape) != len(itm.dims) or not all(
                        A.dims_equal(a, b) for a, b in zip(x.shape, itm.dims)):
                    raise Unsupported(f"{itm.label}: shape changes in a loop")
                if x.kind == "f" and itm.kind in ("i", "b"):
                    float_items.add(itm.label)
                    changed = True
                old = c.facts
                fs = []
                for v, d in zip(vs, itm.dims):
                    fs += [v >= 0, v < d]
                c.facts = old.extend(*fs)
                try:
                    e = x.get(tuple(vs))
                finally:
                    c.facts = old
                itm.E = as01(e) if itm.kind == "b" else lift(e)
    # widening of array kinds written with reals is caught by coerce (trunc); keep as is
    return changed


def h_funs(t, names):
    return tm.funs_of(t) & names


def delta_norm(t, vids):
    """in every monomial with factor [x == e] (x an index variable) replace x by e elsewhere"""
    res = ZERO
    for mono, co in t.m.items():
        cur = T.make({mono: co})
        done = set()
        for _ in range(6):
            hit = False
            for m2 in list(cur.m):
                for a, e in m2:
                    at = tm.atom(a)
                    if at.kind == "ind" and at.args[0] == "eq":
                        for v in vids:
                            if v in at.fv and (a, v) not in done:
                                sol = tm.solve_linear(at.args[1], v)
                                if sol is not None:
                                    rest = T.make({tuple(x for x in m2 if x[0] != a): cur.m[m2]})
                                    other = T.make({x: y for x, y in cur.m.items() if x is not m2})
                                    cur = other + tm.of_atom(at) * tm.subst(rest, {v: sol})
                                    done.add((a, v))
                                    hit = True
                                    break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                break
        res = res + cur
    return res


def prune_infeasible(D, hnames, facts):
    """drop monomials with unknown values whose conditions exclude one another"""
    out = {}
    memo = {}
    for mono, c in D.m.items():
        ats = [tm.atom(a) for a, _ in mono]
        if any(h_funs(tm.of_atom(a), hnames) for a in ats):
            conds = frozenset(a.id for a in ats if a.kind == "ind")
            if conds not in memo:
                memo[conds] = not conds or facts.extend(*[tm.B(tm.of_atom(tm.atom(a))) for a in sorted(conds)]).consistent()
            if not memo[conds]:
                continue
        out[mono] = c
    return T.make(out)


def solve_recurrences(items, k, n, facts, uid, site, vc):
    names = {i.hname for i in items}
    kid = tm.vid(k)
    todo = []
    for itm in items:
        if itm.E_at is not None:
            itm.parts = {}
        todo.append(itm)
    resolved = {}

    def close_known(t):
        for nm, itm in resolved.items():
            if nm in tm.funs_of(t):
                t = tm.subst_fun(t, nm, lambda *a, itm=itm: itm.closed(a[0], a[1:]))
        return t

    def try_expr(itm, E, head, vs, x0):
        """closed form of X with X_{k+1} = E, X_k = head; returns function j -> T or None"""
        f = facts
        one = {tm.vid(v): ZERO for v, d in zip(vs, itm.dims) if isinstance(v, T) and not v.is_const() and isinstance(A._cint(d), int) and A._cint(d) == 1}
        if one:             # the only index of an axis of length one
            E, head = tm.subst(E, one), tm.subst(head, one)
        for v, d in zip(vs, itm.dims):
            f = f.extend(v >= 0, v < d)
        E = solve.simp(close_known(E), f)
        vids = [tm.vid(v) for v in vs if isinstance(v, T) and not v.is_const()]
        D = E - head
        D = delta_norm(D, vids)
        D = solve.simp(D, f)
        open_names = names - set(resolved)
        if h_funs(D, open_names):
            D = prune_infeasible(D, open_names, f)
        if not h_funs(D, open_names):
            return ("acc", D)
        # is it an overwrite independent of the previous iteration?
        if not h_funs(E, open_names):
            return ("last", E)
        r = try_own(itm, D, f, vs, open_names)
        if r is not None:
            return r
        # D = V - C*head, C in {0,1}
        V, Cc = ZERO, ZERO
        hid = list(head.m)[0][0][0]
        for mono, co in D.m.items():
            hs = [(a, e) for a, e in mono if tm.atom(a).kind == "app" and tm.atom(a).args[0] == itm.hname]
            rest = tuple(x for x in mono if x not in hs)
            if not hs:
                V = V + T.make({mono: co})
                continue
            if len(hs) != 1 or hs[0][1] != 1:
                return None
            # does the head entry equal `head` under the deltas of this monomial?
            hat = tm.atom(hs[0][0])
            if hs[0][0] != hid:
                hh = T.make({rest: Fraction(1)}) * head
                if delta_norm(hh, vids) is not delta_norm(T.make({rest: Fraction(1)}) * tm.of_atom(hat), vids):
                    return None
            Cc = Cc - T.make({rest: co})
        if h_funs(V, open_names) or h_funs(Cc, open_names):
            return None
        # disjointness: for k != k2: C(k) * C(k2) == 0; 0/1-valued; V only where C
        k2 = tm.fresh("it2_", True)
        f2 = f.extend(k2 >= 0, k2 < n, k2 != k)
        C2 = tm.subst(Cc, {kid: k2})
        r1 = solve.prove_zero(Cc * C2, f2)
        if r1.status != "proved":
            return None
        r2 = solve.prove_zero(Cc * Cc - Cc, f)
        if r2.status != "proved":
            return None
        r3 = solve.prove_zero(V - V * Cc, f)
        if r3.status != "proved":
            return None
        return ("map", V, Cc)

    def try_own(itm, D, f, vs, open_names):
        """an entry is changed in one iteration only, from its own value: that value is the one before the loop"""
        common = None
        for mono in D.m:
            ats = {a for a, e in mono if tm.atom(a).kind == "ind" and not h_funs(tm.of_atom(tm.atom(a)), open_names)}
            common = ats if common is None else common & ats
        if not common:
            return None
        Cc = ONE
        for a in common:
            Cc = Cc * tm.of_atom(tm.atom(a))
        k2 = tm.fresh("it2_", True)
        if solve.prove_zero(Cc * tm.subst(Cc, {kid: k2}), f.extend(k2 >= 0, k2 < n, k2 != k)).status != "proved":
            return None
        bad = []
        R_ = ZERO
        for mono, co in D.m.items():
            conds = sorted(a for a, e in mono if tm.atom(a).kind == "ind" and not h_funs(tm.of_atom(tm.atom(a)), open_names))
            g = f.extend(*[tm.B(tm.of_atom(tm.atom(a))) for a in conds])

            def own(*a):
                if (lift(a[0]) - k).key != ZERO.key or len(a) - 1 != len(vs) or any(
                        solve.prove_zero(lift(x) - lift(v), g).status != "proved" for x, v in zip(a[1:], vs)):
                    bad.append(a)
                    return ZERO
                return lift0(itm.x0(tuple(a[1:])))
            R_ = R_ + tm.subst_fun(T.make({mono: co}), itm.hname, own)
        if bad or h_funs(R_, open_names):
            return None
        return ("acc", R_)

    def finish(itm, kind, vs, x0):
        vids = [tm.vid(v) if isinstance(v, T) and not v.is_const() else None for v in vs]
        if kind[0] == "acc":
            D = kind[1]

            def closed(j, idx):
                t = tm.fresh("t", True)
                s = {kid: t}
                for v, i in zip(vids, idx):
                    if v is not None:
                        s[v] = i
                return lift0(x0(idx)) + tm.mk_sum(t, 0, j, tm.subst(D, s))
        elif kind[0] == "last":
            E = kind[1]

            def closed(j, idx):
                j = lift(j)
                s = {kid: j - 1}
                for v, i in zip(vids, idx):
                    if v is not None:
                        s[v] = i
                z = tm.ind_le(j)
                return z * lift0(x0(idx)) + (ONE - z) * tm.subst(E, s)
        else:
            V, Cc = kind[1], kind[2]

            def closed(j, idx):
                t = tm.fresh("t", True)
                s = {kid: t}
                for v, i in zip(vids, idx):
                    if v is not None:
                        s[v] = i
                x = lift0(x0(idx))
                return x + tm.mk_sum(t, 0, j, tm.subst(V, s)) - x * tm.mk_sum(t, 0, j, tm.subst(Cc, s))
        return closed

    progress = True
    while todo and progress:
        progress = False
        for itm in list(todo):
            if itm.E_at is None:
                head = tm.app(itm.hname, (k,) + tuple(itm.vs), itm.kind in ("i", "b"), itm.kind == "b")
                r = try_expr(itm, itm.E, head, itm.vs, itm.x0)
                if r is None:
                    continue
                itm.closed = finish(itm, r, itm.vs, itm.x0)
            else:
                ok = True
                for ix in rnp.ndindex(*itm.dims):
                    if ix in itm.parts:
                        continue
                    lix = tuple(lift(i) for i in ix)
                    head = tm.app(itm.hname, (k,) + lix, itm.kind in ("i", "b"), itm.kind == "b")
                    r = try_expr(itm, itm.E_at(ix), head, (), itm.x0)
                    if r is None:
                        ok = False
                        continue
                    x0 = lift0(itm.x0(ix))
                    itm.parts[ix] = finish(itm, r, (), lambda idx, x0=x0: x0)
                if not ok:
                    continue

                def closed(j, idx, itm=itm):
                    idx = tuple(A._cint(i) for i in idx)
                    if all(isinstance(i, int) for i in idx):
                        return itm.parts[idx](j, ())
                    acc = ZERO
                    for ix in rnp.ndindex(*itm.dims):
                        c_ = ONE
                        for a, b in zip(idx, ix):
                            c_ = c_ * tm.ind_eq(lift(a) - b)
                        if c_ is not ZERO:
                            acc = acc + c_ * itm.parts[ix](j, ())
                    return acc
                itm.closed = closed
            resolved[itm.hname] = itm
            todo.remove(itm)
            progress = True
    if todo:
        inv = vc.invariants.get(site.rsplit(":", 1)[0]) or vc.invariants.get(site)
        if inv is not None:
            inv(todo, resolved, k, n, facts)
            return
        raise Unsupported(f"loop at {site}: no closed form for {[i.label for i in todo]}")


def lift0(x):
    if isinstance(x, (B, bool)):
        return as01(x)
    return lift(x)


def define_heads(items, k, n):
    """during the well-definedness pass the head symbols are linked to their closed forms"""
    for itm in items:
        def ff(*a, itm=itm):
            if any(isinstance(x, T) and tm.is_bound_name(str(x)) for x in a):
                return []
            h = tm.app(itm.hname, a, itm.kind in ("i", "b"), itm.kind == "b")
            try:
                return [h == itm.closed(a[0], a[1:])]
            except KeyError:
                return []
        solve.FUN_FACTS[itm.hname] = ff


def undefine_heads(items):
    for itm in items:
        solve.FUN_FACTS.pop(itm.hname, None)
