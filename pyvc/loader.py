"""Import of the repository's modules in instrumented form, with shimmed builtins and libraries."""
import builtins
import importlib
import os
import sys
import types
from fractions import Fraction

from . import term as tm
from . import arr as A
from .term import T, B, ZERO, ONE, lift, as01, Unsupported
from .arr import Arr, CArr, SArr, SymSeq
from .ctx import ctx
from .runtime import VC, SymList, SymIter, SymRange, as_iter, is_sym, vtruth, Poison
from .instr import instrument
from .symnp import np, as_arr

REPO = os.environ.get("VERIF_REPO", "/repo")
ALLOWED = {"abc", "typing", "dataclasses", "enum", "functools", "itertools", "os", "sys", "json", "pickle", "copy",
           "time", "inspect", "io", "collections", "pathlib", "ctypes", "operator", "warnings", "contextlib",
           "types", "logging", "random", "string", "argparse", "re", "__future__", "numbers", "weakref", "traceback",
           "tempfile", "shutil", "datetime", "textwrap", "uuid", "hashlib", "fractions", "decimal"}


def shim(real, name, ctor, check):
    class Meta(type):
        def __call__(cls, *a, **k):
            return ctor(*a, **k)

        def __instancecheck__(cls, x):
            return check(x)

        def __subclasscheck__(cls, c):
            return isinstance(c, type) and (issubclass(c, real) or type.__subclasscheck__(cls, c))

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)
    return Meta(name, (), {"__module__": "builtins", "vreal": real})


def v_int(x=0, *a):
    if isinstance(x, B):
        return x.t
    if isinstance(x, T):
        if x.is_int():
            return A._cint(x)
        if x.is_const():
            return int(x.const())
        return tm.app("trunc", (x,), is_int=True)
    if isinstance(x, Arr):
        return v_int(x.item())
    return int(x, *a)


def v_float(x=0):
    if isinstance(x, B):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, Arr):
        return x.item()
    if isinstance(x, str):
        try:
            return Fraction(x)
        except ValueError:
            return float(x)
    if isinstance(x, float):
        return x
    return Fraction(x)


def v_bool(x=False):
    return vtruth(x)


def v_len(x):
    if isinstance(x, Arr):
        return x.vlen()
    if isinstance(x, SymList):
        return x.n
    return len(x)


def v_range(*a):
    a = [A._cint(lift(x)) if not isinstance(x, int) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if any(isinstance(x, T) and not x.is_int() for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if a[2] == 1:
        return SymRange(a[0], a[1])
    if a[2] == -1:
        lo, hi = lift(a[1]) + 1, lift(a[0]) + 1
        r = SymRange(lo, hi)
        return SymList(r.n, lambda k: A._cint(lift(a[0]) - k))
    raise Unsupported("range with a symbolic step")


def v_enumerate(x, start=0):
    it = as_iter(x)
    if is_sym(it):
        return SymList(it.n, lambda k: (A._cint(lift(k) + start), it.item(k)))
    return enumerate(it, start)


def v_zip(*xs, strict=False):
    its = [as_iter(x) for x in xs]
    sy = [i for i in its if is_sym(i)]
    if not sy:
        return zip(*its)
    n = sy[0].n
    for s in sy[1:]:
        if not A.dims_equal(s.n, n):
            raise Unsupported("zip of sequences of different symbolic lengths")
    for i in its:
        if not is_sym(i):
            raise Unsupported("zip of symbolic and concrete sequences")
    return SymList(n, lambda k: tuple(i.item(k) for i in its))


def v_list(x=()):
    it = as_iter(x)
    if is_sym(it):
        return SymList(it.n, it.item)
    return list(it)


def v_tuple(x=()):
    it = as_iter(x)
    if is_sym(it):
        return SymList(it.n, it.item)
    return tuple(it)


def v_map(f, *xs):
    if len(xs) == 1:
        it = as_iter(xs[0])
        if is_sym(it):
            return SymList(it.n, lambda k: f(it.item(k)))
        return map(f, it)
    z = v_zip(*xs)
    if isinstance(z, SymList):
        return SymList(z.n, lambda k: f(*z.item(k)))
    return (f(*t) for t in z)


def v_sum(x, start=0):
    it = as_iter(x)
    if is_sym(it):
        probe = it.item(tm.fresh("p", True))
        if isinstance(probe, (Arr, list, tuple)):
            return A.asum(SymList(it.n, it.item).to_arr(), 0) + start
        return A.big_sum(A.dim(it.n), lambda k: it.item(k)) + start
    r = start
    for e in it:
        r = r + e
    return r


def _minmax(f, which):
    def g(*a, key=None, default=None):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr):
                return A.aminmax(x, None if x.ndim == 1 else 0, which)
            it = as_iter(x)
            if is_sym(it):
                return A.aminmax(SymList(it.n, it.item).to_arr(), None, which)
            vals = list(it)
        else:
            vals = list(a)
        if key is not None:
            if any(isinstance(key(v), (T, B)) and not lift(key(v)).is_const() for v in vals):
                raise Unsupported("min/max with a symbolic key")
            return (min if which == "min" else max)(vals, key=key)
        if not vals:
            if default is not None:
                return default
            raise ValueError(f"{which}() arg is an empty sequence")
        if any(isinstance(v, float) for v in vals) or not any(isinstance(v, (T, B)) for v in vals):
            return (min if which == "min" else max)(vals)
        r = vals[0]
        for v in vals[1:]:
            r = f(lift(r), lift(v))
        return r
    return g


v_min = _minmax(tm.tmin, "min")
v_max = _minmax(tm.tmax, "max")


def v_abs(x):
    if isinstance(x, B):
        return x.t
    if isinstance(x, T):
        return tm.tabs(x)
    return abs(x)


def v_any(x):
    if isinstance(x, Arr):
        return A.aany(x)
    it = as_iter(x)
    if is_sym(it):
        return A.aany(A.make((it.n,), lambda i: B(as01(vtruth(it.item(lift(i[0]))))), "b"))
    r = False
    for e in it:
        t = vtruth(e)
        if t is True:
            return True
        if t is False:
            continue
        r = t if r is False else (r | t)
    return r


def v_all(x):
    if isinstance(x, Arr):
        return A.aall(x)
    it = as_iter(x)
    if is_sym(it):
        return A.aall(A.make((it.n,), lambda i: B(as01(vtruth(it.item(lift(i[0]))))), "b"))
    r = True
    for e in it:
        t = vtruth(e)
        if t is False:
            return False
        if t is True:
            continue
        r = t if r is True else (r & t)
    return r


def v_sorted(x, key=None, reverse=False):
    it = as_iter(x)
    if is_sym(it):
        raise Unsupported("sorted() of a symbolic sequence")
    vals = list(it)
    if key is None and any(isinstance(v, T) and not v.is_const() for v in vals):
        # sorting network for short lists
        if len(vals) > 4:
            raise Unsupported("sorted() of many symbolic values")
        vals = [lift(v) for v in vals]
        for i in range(len(vals)):
            for j in range(len(vals) - 1 - i):
                a, b = vals[j], vals[j + 1]
                vals[j], vals[j + 1] = tm.tmin(a, b), tm.tmax(a, b)
        return vals[::-1] if reverse else vals
    return sorted(vals, key=key, reverse=reverse)


def v_reversed(x):
    it = as_iter(x)
    if is_sym(it):
        n = lift(it.n)
        return SymList(it.n, lambda k: it.item(n - 1 - k))
    return reversed(list(it))


def v_round(x, nd=None):
    if isinstance(x, T) and not x.is_const():
        if x.is_int():
            return x
        raise Unsupported("round of a symbolic value")
    if isinstance(x, T):
        x = x.const()
    return round(x, nd) if nd is not None else round(x)


def v_print(*a, **k):
    return None


def v_next(it, *d):
    return next(it, *d)


def v_isinstance(x, t):
    return isinstance(x, t)


def v_divmod(a, b):
    return a // b, a % b


def v_slice(*a):
    return slice(*a)


SHIMS = {
    "int": shim(int, "int", v_int, lambda x: isinstance(x, int) or (isinstance(x, T) and x.is_int())),
    "float": shim(float, "float", v_float, lambda x: isinstance(x, (float, Fraction)) or (isinstance(x, T) and not x.is_int())),
    "bool": shim(bool, "bool", v_bool, lambda x: isinstance(x, (bool, B))),
    "list": shim(list, "list", v_list, lambda x: isinstance(x, (list, SymList))),
    "tuple": shim(tuple, "tuple", v_tuple, lambda x: isinstance(x, tuple)),
    "len": v_len, "range": v_range, "enumerate": v_enumerate, "zip": v_zip, "map": v_map, "sum": v_sum,
    "min": v_min, "max": v_max, "abs": v_abs, "any": v_any, "all": v_all, "sorted": v_sorted,
    "reversed": v_reversed, "round": v_round, "print": v_print, "divmod": v_divmod,
}


class Stub(types.ModuleType):
    """a library outside the verified code: attributes are placeholders, using them is an error"""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        p = Placeholder(f"{self.__name__}.{name}")
        setattr(self, name, p)
        return p


class Placeholder:
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        p = Placeholder(f"{self.name}.{n}")
        self.__dict__[n] = p
        return p

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self.name} (no contract)")

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self

    def __getitem__(self, i):
        return self


def make_numba():
    nb = types.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and not k and callable(a[0]) and isinstance(a[0], types.FunctionType):
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = nb.vectorize = nb.guvectorize = nb.generated_jit = njit
    nb.prange = v_range

    class Ty:
        def __init__(self, n):
            self.n = n

        def __getitem__(self, i):
            return self

        def __call__(self, *a, **k):
            return self
    for t in ("float64", "int64", "int32", "float32", "boolean", "void", "uint8", "i8", "f8", "b1", "bool_"):
        setattr(nb, t, Ty(t))
    ty = Stub("numba.types")
    for t in ("Tuple", "UniTuple", "float64", "int64", "boolean", "Array", "void", "unicode_type"):
        setattr(ty, t, Ty(t))
    nb.types = ty
    nb.typed = Stub("numba.typed")

    class NbMod(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            raise Unsupported(f"numba.{n}")
    nb.__class__ = NbMod
    return nb


def make_math():
    m = types.ModuleType("math")
    m.sqrt = lambda x: tm.sqrt(lift(x))
    m.fabs = v_abs
    m.pi = np.pi
    m.inf = float("inf")
    m.floor = lambda x: np.floor(x)
    m.ceil = lambda x: np.ceil(x)
    m.sin, m.cos, m.exp = np.sin, np.cos, np.exp
    m.isclose = lambda a, b, **k: (_ for _ in ()).throw(Unsupported("isclose"))
    return m


class Loader:
    def __init__(self, repo=None, vc=None):
        self.repo = repo or REPO
        self.vc = vc or VC()
        self.mods = {}
        self.libs = {"numpy": np, "numpy.linalg": np.linalg, "numba": None, "math": make_math()}
        nb = make_numba()
        self.libs["numba"] = nb
        self.libs["numba.types"] = nb.types
        self.libs["numba.typed"] = nb.typed
        self.builtins = dict(vars(builtins))
        self.builtins.update(SHIMS)
        self.builtins["__import__"] = self._import
        self.sources = {}

    def lib(self, name):
        """a library stub (attributes may be replaced by contracts)"""
        if name not in self.libs:
            self.libs[name] = Stub(name)
            if "." in name:
                p, c = name.rsplit(".", 1)
                setattr(self.lib(p), c, self.libs[name])
        return self.libs[name]

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return (f if os.path.exists(f) else None), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:          # loaded by its own package in the meantime
                return self.mods[name]
        f, pkg = self.path(name)
        if pkg is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = f or ""
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = []
        self.mods[name] = m
        # dataclasses & pickle look modules up in sys.modules
        if name not in sys.modules or getattr(sys.modules[name], "_pyvc", False):
            sys.modules[name] = m
            m._pyvc = True
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_vc_"] = self.vc
        if f:
            src = open(f).read()
            self.sources[name] = src
            code = instrument(src, os.path.relpath(f, self.repo), name)
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if "." in name:
            par, ch = name.rsplit(".", 1)
            setattr(self.mods[par], ch, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if self.path(top)[1] is not None and top in ("conmech", "examples", "tests", "deep_conmech"):
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for a in fromlist:
                if a != "*" and not hasattr(m, a) and self.path(name + "." + a)[1] is not None:
                    self.load(name + "." + a)
            return m
        if name in self.libs:
            if fromlist or "." not in name:
                return self.libs[name]
            return self.libs[top]
        if top in ALLOWED:
            return builtins.__import__(name, globals, locals, fromlist, level)
        if top in ("numpy", "numba"):
            raise Unsupported(f"import {name}")
        m = self.lib(name)
        if fromlist:
            for a in fromlist:
                if self.libs.get(name + "." + a) is not None:
                    setattr(m, a, self.libs[name + "." + a])
            return m
        return self.lib(top)
