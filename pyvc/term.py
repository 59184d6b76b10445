"""Exact symbolic scalars: interned multivariate polynomials over atoms.

A `T` is a polynomial with rational coefficients whose indeterminates are *atoms*:

  var(name)             free variable (real or integer)
  app(f, args)          uninterpreted function applied to terms (array entries, callee results)
  ind(kind, P)          indicator (0/1) of an atomic condition: P == 0 or P <= 0
  indb(name, args)      indicator of an uninterpreted predicate
  exi(lo, hi, body)     indicator of "exists bound variable in [lo,hi) with body = 1"
  inv(P)                1/P          (P monic)
  sqrt(P)               square root  (P >= 0 is an obligation of whoever builds it)
  idiv(P, Q), imod(P,Q) integer floor division / remainder
  sum(ranges, body)     sum of a monomial body over integer ranges (bound variables canonical)

Booleans are the 0/1 valued polynomials (and = product, or = a+b-ab, not = 1-a).
Real arithmetic is exact (floats of the program are treated as reals).
"""
from fractions import Fraction
from itertools import permutations

_atoms = {}       # key -> Atom
_atom_list = []


class Atom:
    __slots__ = ("id", "kind", "args", "is_int", "depth", "fv", "key", "is01")

    def __repr__(self):
        return atom_str(self)


def _mk_atom(kind, args, is_int, depth, fv, is01=False):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.kind = kind
        a.args = args
        a.is_int = is_int
        a.depth = depth
        a.fv = fv
        a.is01 = is01
        a.key = key
        _atoms[key] = a
        _atom_list.append(a)
    return a


_polys = {}


class T:
    __slots__ = ("m", "key", "_fv", "_depth", "_int", "_atoms", "__weakref__")

    # -- construction -----------------------------------------------------
    @staticmethod
    def make(m):
        m = {k: v for k, v in m.items() if v}
        key = frozenset(m.items())
        t = _polys.get(key)
        if t is None:
            t = object.__new__(T)
            t.m = m
            t.key = key
            t._fv = None
            t._depth = None
            t._int = None
            t._atoms = None
            _polys[key] = t
        return t

    # -- inspection --------------------------------------------------------
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        if not self.m:
            return Fraction(0)
        return self.m[()]

    def atoms(self):
        if self._atoms is None:
            s = set()
            for mono in self.m:
                for aid, _ in mono:
                    s.add(aid)
            self._atoms = frozenset(s)
        return self._atoms

    def fv(self):
        """ids of free var atoms (bound variables included, as var atoms)"""
        if self._fv is None:
            s = frozenset()
            for aid in self.atoms():
                s |= _atom_list[aid].fv
            self._fv = s
        return self._fv

    def depth(self):
        if self._depth is None:
            d = 0
            for aid in self.atoms():
                d = max(d, _atom_list[aid].depth)
            self._depth = d
        return self._depth

    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 for c in self.m.values()) and all(
                _atom_list[a].is_int for a in self.atoms()
            )
        return self._int

    def __hash__(self):
        return hash(self.key)

    def same(self, other):
        return self is lift(other)

    # -- arithmetic ----------------------------------------------------------
    def __add__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if not self.m:
            return o
        if not o.m:
            return self
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        r = dict(a)
        for k, v in b.items():
            w = r.get(k)
            if w is None:
                r[k] = v
            else:
                w = w + v
                if w:
                    r[k] = w
                else:
                    del r[k]
        return T.make(r)

    __radd__ = __add__

    def __neg__(self):
        return T.make({k: -v for k, v in self.m.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if self.is_const():
            c = self.const()
            if c == 0:
                return ZERO
            if c == 1:
                return o
            return T.make({k: v * c for k, v in o.m.items()})
        if o.is_const():
            return o * self
        return _mul(self, o)

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, T) and n.is_const() and n.const().denominator == 1:
            n = int(n.const())
        if isinstance(n, int) and not isinstance(n, bool):
            if n >= 0:
                r = ONE
                for _ in range(n):
                    r = r * self
                return r
            return inv(self) ** (-n)
        if isinstance(n, Fraction) and n == Fraction(1, 2):
            return sqrt(self)
        if isinstance(n, T) and n.is_const() and n.const() == Fraction(1, 2):
            return sqrt(self)
        raise Unsupported(f"power {n!r}")

    def __truediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return self * inv(o)

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o * inv(self)

    def __floordiv__(self, o):
        return idiv(self, lift(o))

    def __rfloordiv__(self, o):
        return idiv(lift(o), self)

    def __mod__(self, o):
        return imod(self, lift(o))

    def __rmod__(self, o):
        return imod(lift(o), self)

    def __abs__(self):
        return tabs(self)

    # -- comparisons give B -----------------------------------------------------
    def __eq__(self, o):
        o = lift_or_none(o)
        if o is None:
            return False
        return B(ind_eq(self - o))

    def __ne__(self, o):
        o = lift_or_none(o)
        if o is None:
            return True
        return B(ONE - ind_eq(self - o))

    def __le__(self, o):
        return B(ind_le(self - lift(o)))

    def __ge__(self, o):
        return B(ind_le(lift(o) - self))

    def __lt__(self, o):
        return B(ONE - ind_le(lift(o) - self))

    def __gt__(self, o):
        return B(ONE - ind_le(self - lift(o)))

    def __bool__(self):
        if self.is_const():
            return bool(self.const())
        return bool(self != 0)

    def __int__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    __index__ = __int__

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return poly_str(self)

    def __format__(self, spec):
        return poly_str(self)

    def __iter__(self):
        raise TypeError("symbolic scalar is not iterable")

    # numpy-scalar-like API
    @property
    def T(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __matmul__(self, o):
        raise TypeError("matmul of a scalar")


class Unsupported(BaseException):
    """The construct is outside the verifier's subset."""


# hook: called when Python needs the truth value of a symbolic boolean
_truth_hook = [None]
# hook: called when a division by P is performed
_div_hook = [None]
_sqrt_hook = [None]


class B:
    """symbolic boolean; .t is a 0/1 valued T"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        if self.t.is_const():
            return bool(self.t.const())
        h = _truth_hook[0]
        if h is None:
            raise Unsupported("truth value of a symbolic condition")
        return h(self)

    def __and__(self, o):
        return B(self.t * as01(o))

    __rand__ = __and__

    def __or__(self, o):
        o = as01(o)
        return B(self.t + o - self.t * o)

    __ror__ = __or__

    def __xor__(self, o):
        o = as01(o)
        return B(self.t + o - 2 * self.t * o)

    def __invert__(self):
        return B(ONE - self.t)

    # arithmetic use of booleans: (i != j) * x, 1 + (i == j)
    def __mul__(self, o):
        if isinstance(o, B):
            return self.t * o.t
        return self.t * o

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, B):
            return self.t + o.t
        return self.t + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.t - (o.t if isinstance(o, B) else o)

    def __rsub__(self, o):
        return o - self.t

    def __neg__(self):
        return -self.t

    def __eq__(self, o):
        o = as01(o)
        return B(ONE - (self.t + o - 2 * self.t * o))

    def __ne__(self, o):
        o = as01(o)
        return B(self.t + o - 2 * self.t * o)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"B({self.t!r})"

    def copy(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def as01(o):
    if isinstance(o, B):
        return o.t
    if isinstance(o, bool):
        return ONE if o else ZERO
    if isinstance(o, T):
        if is01(o):
            return o
        return (o != 0).t
    if isinstance(o, (int, Fraction)):
        return ONE if o else ZERO
    try:
        import numpy as _np
        if isinstance(o, _np.bool_):
            return ONE if o else ZERO
    except ImportError:
        pass
    raise Unsupported(f"boolean expected, got {type(o).__name__}")


def is01(t):
    if t.is_const():
        return t.const() in (0, 1)
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        return c == 1 and all(_atom_list[a].is01 for a, _ in mono)
    return False


def lift_or_none(x):
    if isinstance(x, T):
        return x
    if isinstance(x, B):
        return x.t
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return T.make({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return T.make({(): x}) if x else ZERO
    if isinstance(x, float):
        return lift_or_none(Fraction(repr(x))) if x == x and abs(x) != float("inf") else None
    return None


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise Unsupported(f"number expected, got {type(x).__name__}: {x!r}")
    return r


ZERO = T.make({})
ONE = T.make({(): Fraction(1)})


def of_atom(a):
    return T.make({((a.id, 1),): Fraction(1)})


def _mono_mul(m1, m2):
    """multiply two monomials; returns (mono, extra T or None)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        at = _atom_list[a]
        if at.is01 and e > 1:
            d[a] = 1
        elif at.kind == "sqrt" and e > 1:
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            x = at.args[0] ** q
            extra = x if extra is None else extra * x
        elif at.kind == "inv1":
            base = at.args[0]          # an atom id
            if base in d:
                k = min(e, d[base])
                d[base] -= k
                d[a] -= k
                if d[base] == 0:
                    del d[base]
                if d[a] == 0:
                    del d[a]
    return tuple(sorted(d.items())), extra


def _mul(p, q):
    r = {}
    extras = []
    for m1, c1 in p.m.items():
        for m2, c2 in q.m.items():
            m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex is not None:
                extras.append(T.make({m: c}) * ex)
            else:
                w = r.get(m)
                if w is None:
                    r[m] = c
                else:
                    w += c
                    if w:
                        r[m] = w
                    else:
                        del r[m]
    res = T.make(r)
    for e in extras:
        res = res + e
    return res


# ------------------------------------------------------------------ atoms
def var(name, is_int=False):
    key = ("var", name, is_int)
    a = _atoms.get(key)
    if a is None:
        a = _mk_atom("var", (name, is_int), is_int, 0, frozenset())
        a.fv = frozenset([a.id])
    return of_atom(a)


_fresh = [0]


FRESH = set()       # ids of bound (generic) variables


def fresh(prefix="x", is_int=False):
    _fresh[0] += 1
    v = var(f"{prefix}#{_fresh[0]}", is_int)
    FRESH.add(vid(v))
    return v


def _join(args):
    fv = frozenset()
    d = 0
    for a in args:
        fv |= a.fv()
        d = max(d, a.depth())
    return fv, d


def app(f, args, is_int=False, is01=False):
    args = tuple(lift(a) for a in args)
    fv, d = _join(args)
    return of_atom(_mk_atom("app", (f, is_int, is01) + args, is_int or is01, d, fv, is01))


def pred(f, args):
    return B(app(f, args, is_int=True, is01=True))


def lead(p):
    """(leading monomial key, coefficient) with a deterministic order"""
    k = max(p.m, key=lambda mono: (sum(e for _, e in mono), mono))
    return k, p.m[k]


def _content_monic(p):
    """p = c * q with q monic (leading coefficient 1)"""
    _, c = lead(p)
    if c == 1:
        return Fraction(1), p
    return c, T.make({k: v / c for k, v in p.m.items()})


def inv(p):
    p = lift(p)
    if _div_hook[0] is not None:
        _div_hook[0](p)
    return _inv(p)


def _inv(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return T.make({(): 1 / c})
    c, q = _content_monic(p)
    if len(q.m) == 1:
        (mono, _), = q.m.items()
        r = {}
        res = T.make({(): 1 / c})
        for a, e in mono:
            at = _atom_list[a]
            if at.kind == "inv":
                res = res * at.args[0] ** e
            elif at.kind == "inv1":
                res = res * of_atom(_atom_list[at.args[0]]) ** e
            else:
                ia = _mk_atom("inv1", (a,), False, at.depth, at.fv)
                res = res * T.make({((ia.id, e),): Fraction(1)})
        return res
    # common monomial factor
    common = None
    for mono in q.m:
        d = dict(mono)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        mm = T.make({cm: Fraction(1)})
        rest = {}
        for mono, v in q.m.items():
            d = dict(mono)
            for a, e in common.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            rest[tuple(sorted(d.items()))] = v
        return T.make({(): 1 / c}) * _inv(mm) * _inv(T.make(rest))
    fv, d = _join((q,))
    return T.make({(): 1 / c}) * of_atom(_mk_atom("inv", (q,), False, d, fv))


def sqrt(p):
    p = lift(p)
    if p.is_const():
        c = p.const()
        if c >= 0:
            import math
            n, dd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and dd * dd == c.denominator:
                return T.make({(): Fraction(n, dd)}) if n else ZERO
    if _sqrt_hook[0] is not None:
        _sqrt_hook[0](p)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 2 and _atom_list[mono[0][0]].kind == "sqrt":
            return of_atom(_atom_list[mono[0][0]])
    fv, d = _join((p,))
    return of_atom(_mk_atom("sqrt", (p,), False, d, fv))


def tabs(p):
    """|p| = p * (2*[p>=0] - 1), with p monic"""
    p = lift(p)
    if p.is_const():
        return T.make({(): abs(p.const())})
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if all(e % 2 == 0 or _atom_list[a].kind == "sqrt" or _atom_list[a].is01 for a, e in mono):
            return T.make({mono: abs(c)})
    c, q = _content_monic(p)
    return abs(c) * q * (2 * ind_le(-q) - 1)


def tsign(p):
    p = lift(p)
    if p.is_const():
        c = p.const()
        return lift((c > 0) - (c < 0))
    # [p>0] - [p<0]
    c, q = _content_monic(p)
    s = (ONE - ind_le(q)) - (ONE - ind_le(-q))
    return s if c > 0 else -s


def ind_eq(p):
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if is01(p) or is01(ONE - p):
        return ONE - p
    if is01(-p) or is01(ONE + p):
        return ONE + p
    if p.is_int():
        from math import gcd
        g = 0
        for k, v in p.m.items():
            if k != ():
                g = gcd(g, abs(v.numerator))
        c0 = p.m.get((), Fraction(0))
        if g > 1:
            if c0.numerator % g:
                return ZERO
            p = T.make({k: v / g for k, v in p.m.items()})
        _, c = lead(p)
        if c < 0:
            p = -p
    else:
        # real: product of single monomial is zero iff a factor is
        _, p = _content_monic(p)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if len(mono) > 1 or mono[0][1] > 1:
            # prod of atoms == 0
            r = ONE
            for a, _ in mono:
                r = r * (ONE - ind_eq(of_atom(_atom_list[a])))
            return ONE - r
        at = _atom_list[mono[0][0]]
        if at.kind == "sqrt":
            return ind_eq(at.args[0])
    return of_atom(_mk_atom("ind", ("eq", p), True, p.depth(), p.fv(), True))


def ind_le(p):
    """[p <= 0]"""
    if p.is_const():
        return ONE if p.const() <= 0 else ZERO
    if len(p.m) <= 2 and all(len(k) <= 1 for k in p.m):
        # a + c*ind <= 0
        nonc = [k for k in p.m if k != ()]
        if len(nonc) == 1:
            a, e = nonc[0][0]
            if _atom_list[a].is01:
                c0 = p.m.get((), Fraction(0))
                c1 = p.m[nonc[0]]
                x = of_atom(_atom_list[a])
                lo = ONE if c0 <= 0 else ZERO
                hi = ONE if c0 + c1 <= 0 else ZERO
                return x * hi + (ONE - x) * lo
    if p.is_int():
        from math import gcd
        g = 0
        for k, v in p.m.items():
            if k != ():
                g = gcd(g, abs(v.numerator))
        c0 = p.m.get((), Fraction(0))
        if g > 1:
            # sum(g*x) + c0 <= 0  <=>  sum(x) <= floor(-c0/g)
            fl = (-c0.numerator) // g
            m = {k: v / g for k, v in p.m.items() if k != ()}
            if fl:
                m[()] = Fraction(-fl)
            p = T.make(m)
        # canonical sign: leading coefficient positive
        _, c = lead(p)
        if c < 0:
            return ONE - ind_le_raw(ONE - p)
        return ind_le_raw(p)
    # scale to |lead| == 1
    _, c = lead(p)
    if abs(c) != 1:
        p = T.make({k: v / abs(c) for k, v in p.m.items()})
    return ind_le_raw(p)


def ind_le_raw(p):
    return of_atom(_mk_atom("ind", ("le", p), True, p.depth(), p.fv(), True))


def idiv(p, q):
    if p.is_const() and q.is_const():
        return lift(p.const() // q.const())
    if q.is_const() and q.const() == 1 and p.is_int():
        return p
    if q.is_const() and q.const().denominator == 1 and q.const() > 0 and p.is_int():
        # pull out multiples
        c = q.const()
        out, rest = {}, {}
        for k, v in p.m.items():
            n = v // c
            if k == ():
                if n:
                    out[k] = Fraction(n)
                if v - n * c:
                    rest[k] = v - n * c
            elif v % c == 0:
                out[k] = v / c
            else:
                rest[k] = v
        r = T.make(rest)
        o = T.make(out)
        if r.is_const():
            return o + lift(r.const() // c)
        if out:
            return o + idiv(r, q)
    elif not q.is_const() and p.is_int() and q.is_int():
        # p = a*q + r where all monomials of a*q found syntactically (q single monomial)
        if len(q.m) == 1:
            (qm, qc), = q.m.items()
            out, rest = {}, {}
            for k, v in p.m.items():
                dk = dict(k)
                ok = v % qc == 0
                for a, e in qm:
                    if dk.get(a, 0) < e:
                        ok = False
                if ok:
                    for a, e in qm:
                        dk[a] -= e
                        if dk[a] == 0:
                            del dk[a]
                    out[tuple(sorted(dk.items()))] = v / qc
                else:
                    rest[k] = v
            if out:
                r = T.make(rest)
                if not r.m:
                    return T.make(out)
                return T.make(out) + idiv(r, q)
    fv, d = _join((p, q))
    return of_atom(_mk_atom("idiv", (p, q), True, d, fv))


def imod(p, q):
    return p - q * idiv(p, q)


# ------------------------------------------------------------------ binders
def bound(depth, i):
    return var(f"§{depth}_{i}", True)


def is_bound_name(n):
    return isinstance(n, str) and n.startswith("§")


def mk_sum(v, lo, hi, body):
    """sum over integer v (a var T) in [lo, hi) of body"""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    vid = next(iter(v.fv()))
    if lo.is_const() and hi.is_const():
        n = hi.const() - lo.const()
        if n <= 0:
            return ZERO
        if n <= 12:
            r = ZERO
            for k in range(int(lo.const()), int(hi.const())):
                r = r + subst(body, {vid: lift(k)})
            return r
    res = ZERO
    for mono, c in body.m.items():
        indep, dep = [], []
        for a, e in mono:
            (dep if vid in _atom_list[a].fv else indep).append((a, e))
        f = T.make({tuple(indep): c})
        if not dep:
            n = hi - lo
            res = res + f * n * ind_le(-n) if not n.is_const() else (
                res + f * max(n.const(), 0))
            continue
        res = res + f * _sum_mono(v, vid, lo, hi, tuple(dep))
    return res


def _sum_mono(v, vid, lo, hi, mono):
    # Kronecker elimination
    for a, e in mono:
        at = _atom_list[a]
        if at.kind == "ind" and at.args[0] == "eq":
            sol = solve_linear(at.args[1], vid)
            if sol is not None:
                rest = T.make({tuple(x for x in mono if x[0] != a): Fraction(1)})
                return subst(rest, {vid: sol}) * ind_le(lo - sol) * ind_le(sol + 1 - hi)
    # expand nested sums
    ranges = [(v, lo, hi)]
    rest = []
    for a, e in mono:
        at = _atom_list[a]
        if at.kind == "sum":
            for _ in range(e):
                rs, b = open_sum(at)
                ranges += rs
                rest.append(b)
        else:
            rest.append(T.make({((a, e),): Fraction(1)}))
    body = ONE
    for r in rest:
        body = body * r
    return close_sum(ranges, body)


def open_sum(at):
    """instantiate the bound variables of a sum atom with fresh variables"""
    ranges, body = at.args
    sub = {}
    out = []
    k = len(ranges)
    d = at.depth
    for i in range(k):
        nv = fresh("s", True)
        sub[next(iter(bound(d, i).fv()))] = nv
    for i, (lo, hi) in enumerate(ranges):
        out.append((sub[next(iter(bound(d, i).fv()))], subst(lo, sub), subst(hi, sub)))
    return out, subst(body, sub)


def close_sum(ranges, body):
    """multi-sum over [(v,lo,hi)] (outer to inner) of body (a T); canonical"""
    if not body.m:
        return ZERO
    if len(body.m) > 1:
        r = ZERO
        for mono, c in body.m.items():
            r = r + c * close_sum(ranges, T.make({mono: Fraction(1)}))
        return r
    (mono, c), = body.m.items()
    if c != 1:
        return c * close_sum(ranges, T.make({mono: Fraction(1)}))
    vids = [next(iter(r[0].fv())) for r in ranges]
    # Kronecker elimination for any bound variable
    for i, (v, lo, hi) in enumerate(ranges):
        vid = vids[i]
        used_in_ranges = any(vid in r[1].fv() or vid in r[2].fv() for j, r in enumerate(ranges) if j != i)
        for a, e in mono:
            at = _atom_list[a]
            if at.kind == "ind" and at.args[0] == "eq" and vid in at.fv:
                sol = solve_linear(at.args[1], vid)
                if sol is None:
                    continue
                # variables of sol must be bound outside i, or we may reorder if independent
                later = set(vids[i + 1:])
                if later & sol.fv():
                    # try to move v innermost: allowed if no later range depends on v
                    if used_in_ranges:
                        continue
                rest = T.make({tuple(x for x in mono if x[0] != a): Fraction(1)})
                nb = subst(rest, {vid: sol}) * ind_le(lo - sol) * ind_le(sol + 1 - hi)
                nr = []
                bad = False
                for j, (w, l2, h2) in enumerate(ranges):
                    if j == i:
                        continue
                    l3, h3 = subst(l2, {vid: sol}), subst(h2, {vid: sol})
                    nr.append((w, l3, h3))
                if bad:
                    continue
                if not nr:
                    return nb
                return close_sum(nr, nb)
    # factors independent of all bound variables
    vs = set(vids)
    indep = tuple(x for x in mono if not (vs & _atom_list[x[0]].fv))
    if indep:
        dep = tuple(x for x in mono if vs & _atom_list[x[0]].fv)
        return T.make({indep: Fraction(1)}) * close_sum(ranges, T.make({dep: Fraction(1)}))
    # variables not used in body: separate them
    bfv = body.fv()
    for i, (v, lo, hi) in enumerate(ranges):
        vid = vids[i]
        if vid not in bfv and not any(vid in r[1].fv() or vid in r[2].fv() for j, r in enumerate(ranges) if j != i):
            n = hi - lo
            fac = n * ind_le(-n)
            nr = ranges[:i] + ranges[i + 1:]
            if not nr:
                return fac
            return close_sum(nr, fac * body)
    # separate independent groups (product of sums)
    groups = _groups(ranges, vids, mono)
    if len(groups) > 1:
        r = ONE
        for gr, gm in groups:
            r = r * close_sum(gr, T.make({gm: Fraction(1)}))
        return r
    # small concrete ranges are unrolled
    for i, (v, lo, hi) in enumerate(ranges):
        if lo.is_const() and hi.is_const() and hi.const() - lo.const() <= 12:
            r = ZERO
            for k in range(int(lo.const()), int(hi.const())):
                s = {vids[i]: lift(k)}
                nr = [(w, subst(l2, s), subst(h2, s)) for j, (w, l2, h2) in enumerate(ranges) if j != i]
                nb = subst(body, s)
                r = r + (close_sum(nr, nb) if nr else nb)
            return r
    # canonical naming
    d = body.depth()
    for _, lo, hi in ranges:
        d = max(d, lo.depth(), hi.depth())
    d += 1
    best = None
    k = len(ranges)
    perms = permutations(range(k)) if k <= 4 else [tuple(range(k))]
    for perm in perms:
        # dependency check
        pos = {vids[j]: n for n, j in enumerate(perm)}
        ok = True
        for n, j in enumerate(perm):
            for w in (ranges[j][1].fv() | ranges[j][2].fv()):
                if w in pos and pos[w] >= n:
                    ok = False
        if not ok:
            continue
        sub = {vids[j]: bound(d, n) for n, j in enumerate(perm)}
        rs = tuple((subst(ranges[j][1], sub), subst(ranges[j][2], sub)) for j in perm)
        b = subst(body, sub)
        key = (tuple((_pid(l), _pid(h)) for l, h in rs), _pid(b))
        if best is None or key < best[0]:
            best = (key, rs, b)
    _, rs, b = best
    bids = set(next(iter(bound(d, n).fv())) for n in range(k))
    fv = set(b.fv())
    for l, h in rs:
        fv |= l.fv() | h.fv()
    isint = b.is_int()
    return of_atom(_mk_atom("sum", (rs, b), isint, d, frozenset(fv - bids)))


def _groups(ranges, vids, mono):
    n = len(ranges)
    par = list(range(n))

    def find(i):
        while par[i] != i:
            i = par[i]
        return i

    def union(i, j):
        par[find(i)] = find(j)

    for i, (v, lo, hi) in enumerate(ranges):
        for j in range(n):
            if j != i and (vids[j] in lo.fv() or vids[j] in hi.fv()):
                union(i, j)
    owner = {}
    for a, e in mono:
        idx = [i for i in range(n) if vids[i] in _atom_list[a].fv]
        for i in idx[1:]:
            union(idx[0], i)
        owner[a] = idx[0]
    res = {}
    for i in range(n):
        res.setdefault(find(i), ([], []))[0].append(ranges[i])
    for a, e in mono:
        res[find(owner[a])][1].append((a, e))
    return [(g, tuple(m)) for g, m in res.values()]


_pids = {}


def _pid(t):
    r = _pids.get(t.key)
    if r is None:
        r = len(_pids)
        _pids[t.key] = r
    return r


def solve_linear(p, vid):
    """p == 0 with coefficient of var vid equal to +-1 and not elsewhere: value of var"""
    c = None
    rest = {}
    for mono, v in p.m.items():
        if len(mono) == 1 and mono[0] == (vid, 1):
            c = v
        else:
            for a, _ in mono:
                if vid in _atom_list[a].fv:
                    return None
            rest[mono] = v
    if c is None:
        return None
    if c == 1:
        return -T.make(rest)
    if c == -1:
        return T.make(rest)
    return None


def mk_exists(v, lo, hi, body):
    """0/1 T: exists v in [lo,hi): body (0/1 T)"""
    lo, hi = lift(lo), lift(hi)
    vid = next(iter(v.fv()))
    if not body.m:
        return ZERO
    if lo.is_const() and hi.is_const() and hi.const() - lo.const() <= 16:
        r = ONE
        for k in range(int(lo.const()), int(hi.const())):
            r = r * (ONE - subst(body, {vid: lift(k)}))
        return ONE - r
    if vid not in body.fv():
        return body * (ONE - ind_le(hi - lo))
    if len(body.m) == 1:
        (mono, c), = body.m.items()
        if c == 1:
            for a, e in mono:
                at = _atom_list[a]
                if at.kind == "ind" and at.args[0] == "eq":
                    sol = solve_linear(at.args[1], vid)
                    if sol is not None:
                        rest = T.make({tuple(x for x in mono if x[0] != a): Fraction(1)})
                        return subst(rest, {vid: sol}) * ind_le(lo - sol) * ind_le(sol + 1 - hi)
    d = max(body.depth(), lo.depth(), hi.depth()) + 1
    bv = bound(d, 0)
    b = subst(body, {vid: bv})
    fv = (b.fv() | lo.fv() | hi.fv()) - bv.fv()
    return of_atom(_mk_atom("exi", (lo, hi, b), True, d, frozenset(fv), True))


def mk_forall(v, lo, hi, body):
    return ONE - mk_exists(v, lo, hi, ONE - body)


# ------------------------------------------------------------------ substitution
def subst(t, s):
    """s: {var atom id: T}"""
    s = {k: lift(v) for k, v in s.items()}
    return _subst(t, s, {})


def _subst(t, s, memo):
    if not (t.fv() & s.keys()):
        return t
    r = memo.get(t.key)
    if r is not None:
        return r
    out = {}
    res = ZERO
    for mono, c in t.m.items():
        keep, ch = [], []
        for a, e in mono:
            (ch if (_atom_list[a].fv & s.keys()) else keep).append((a, e))
        if not ch:
            out[mono] = out.get(mono, 0) + c
            continue
        x = T.make({tuple(keep): c})
        for a, e in ch:
            x = x * _subst_atom(_atom_list[a], s, memo) ** e
        res = res + x
    res = res + T.make(out)
    memo[t.key] = res
    return res


def _subst_atom(at, s, memo):
    k = ("atom", at.id)
    r = memo.get(k)
    if r is None:
        r = rebuild(at, s, lambda t: _subst(t, s, memo))
        memo[k] = r
    return r


def rebuild(at, s, f):
    """rebuild atom with function f applied to its arguments"""
    kind, args = at.kind, at.args
    if kind == "var":
        return s.get(at.id, of_atom(at)) if s else of_atom(at)
    if kind == "app":
        return app(args[0], [f(a) for a in args[3:]], args[1], args[2])
    if kind == "ind":
        p = f(args[1])
        return ind_eq(p) if args[0] == "eq" else ind_le(p)
    if kind == "inv":
        return _inv(f(args[0]))
    if kind == "inv1":
        return _inv(f(of_atom(_atom_list[args[0]])))
    if kind == "sqrt":
        h = _sqrt_hook[0]
        _sqrt_hook[0] = None
        try:
            return sqrt(f(args[0]))
        finally:
            _sqrt_hook[0] = h
    if kind == "idiv":
        return idiv(f(args[0]), f(args[1]))
    if kind == "sum":
        rs, body = open_sum(at)
        return close_sum([(v, f(lo), f(hi)) for v, lo, hi in rs], f(body))
    if kind == "exi":
        lo, hi, b = args
        bv = bound(at.depth, 0)
        nv = fresh("e", True)
        b2 = subst(b, {next(iter(bv.fv())): nv})
        return mk_exists(nv, f(lo), f(hi), f(b2))
    raise AssertionError(kind)


def subst_fun(t, fname, fn):
    """replace every app(fname, args) by fn(*args)"""
    memo = {}

    def go(t):
        r = memo.get(t.key)
        if r is not None:
            return r
        res = ZERO
        for mono, c in t.m.items():
            x = T.make({(): c})
            for a, e in mono:
                x = x * goa(_atom_list[a]) ** e
            res = res + x
        memo[t.key] = res
        return res

    def goa(at):
        if not contains_fun_atom(at, fname):
            return of_atom(at)
        if at.kind == "app" and at.args[0] == fname:
            return lift(fn(*[go(a) for a in at.args[3:]]))
        return rebuild(at, None, go)

    return go(t)


_cfun = {}


def contains_fun_atom(at, fname):
    k = (at.id, fname)
    r = _cfun.get(k)
    if r is None:
        r = fname in funs_of_atom(at)
        _cfun[k] = r
    return r


_funs = {}


def funs_of_atom(at):
    r = _funs.get(at.id)
    if r is None:
        s = set()
        kind, args = at.kind, at.args
        if kind == "app":
            s.add(args[0])
            for a in args[3:]:
                s |= funs_of(a)
        elif kind == "var":
            s.add(args[0])
        elif kind == "ind":
            s |= funs_of(args[1])
        elif kind == "inv1":
            s |= funs_of_atom(_atom_list[args[0]])
        elif kind in ("inv", "sqrt"):
            s |= funs_of(args[0])
        elif kind == "idiv":
            s |= funs_of(args[0]) | funs_of(args[1])
        elif kind == "sum":
            for lo, hi in args[0]:
                s |= funs_of(lo) | funs_of(hi)
            s |= funs_of(args[1])
        elif kind == "exi":
            for a in args:
                s |= funs_of(a)
        r = frozenset(s)
        _funs[at.id] = r
    return r


def funs_of(t):
    s = set()
    for a in t.atoms():
        s |= funs_of_atom(_atom_list[a])
    return s


def atom(aid):
    return _atom_list[aid]


# ------------------------------------------------------------------ printing
def atom_str(at):
    k, a = at.kind, at.args
    if k == "var":
        return a[0]
    if k == "app":
        return f"{a[0]}({', '.join(poly_str(x) for x in a[3:])})"
    if k == "ind":
        return f"[{poly_str(a[1])}{'==' if a[0] == 'eq' else '<='}0]"
    if k == "inv":
        return f"1/({poly_str(a[0])})"
    if k == "inv1":
        return f"1/{atom_str(_atom_list[a[0]])}"
    if k == "sqrt":
        return f"sqrt({poly_str(a[0])})"
    if k == "idiv":
        return f"({poly_str(a[0])})//({poly_str(a[1])})"
    if k == "sum":
        r = ", ".join(f"{poly_str(bound(at.depth, i))}:{poly_str(l)}..{poly_str(h)}" for i, (l, h) in enumerate(a[0]))
        return f"Σ({r}: {poly_str(a[1])})"
    if k == "exi":
        return f"∃({poly_str(bound(at.depth, 0))}:{poly_str(a[0])}..{poly_str(a[1])}: {poly_str(a[2])})"
    return str(at.key)


def poly_str(t, limit=2000):
    if not t.m:
        return "0"
    parts = []
    n = 0
    for mono, c in t.m.items():
        s = "*".join(atom_str(_atom_list[a]) + (f"^{e}" if e != 1 else "") for a, e in mono)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        parts.append(s)
        n += len(s)
        if n > limit:
            parts.append("...")
            break
    return " + ".join(parts).replace("+ -", "- ")


# ------------------------------------------------------------------ concrete evaluation
def evaluate(t, env, funs):
    """numeric value; env {var name: number}, funs {fname: callable}. Uses Fractions/floats."""
    r = 0
    for mono, c in t.m.items():
        x = c
        # evaluate indicators first: zero short-circuits (guards out-of-range lookups)
        order = sorted(mono, key=lambda ae: 0 if _atom_list[ae[0]].is01 else 1)
        for a, e in order:
            y = eval_atom(_atom_list[a], env, funs)
            if y == 0:
                x = 0
                break
            x = x * y ** e
        r = r + x
    return r


def eval_atom(at, env, funs):
    k, a = at.kind, at.args
    if k == "var":
        return env[a[0]]
    if k == "app":
        return funs[a[0]](*[evaluate(x, env, funs) for x in a[3:]])
    if k == "ind":
        v = evaluate(a[1], env, funs)
        if a[0] == "eq":
            return 1 if v == 0 else 0
        return 1 if v <= 0 else 0
    if k == "inv":
        v = evaluate(a[0], env, funs)
        return 1 / v
    if k == "inv1":
        return 1 / eval_atom(_atom_list[a[0]], env, funs)
    if k == "sqrt":
        v = evaluate(a[0], env, funs)
        return float(v) ** 0.5
    if k == "idiv":
        return evaluate(a[0], env, funs) // evaluate(a[1], env, funs)
    if k == "sum":
        def go(i, env):
            if i == len(a[0]):
                return evaluate(a[1], env, funs)
            lo = int(evaluate(a[0][i][0], env, funs))
            hi = int(evaluate(a[0][i][1], env, funs))
            nm = f"§{at.depth}_{i}"
            r = 0
            e2 = dict(env)
            for v in range(lo, hi):
                e2[nm] = v
                r = r + go(i + 1, e2)
            return r
        return go(0, env)
    if k == "exi":
        lo = int(evaluate(a[0], env, funs))
        hi = int(evaluate(a[1], env, funs))
        nm = f"§{at.depth}_0"
        e2 = dict(env)
        for v in range(lo, hi):
            e2[nm] = v
            if evaluate(a[2], e2, funs):
                return 1
        return 0
    raise AssertionError(k)


# ------------------------------------------------------------------ helpers
def ite(c, a, b):
    c = as01(c)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return c * a + (ONE - c) * b


def tmax(a, b):
    a, b = lift(a), lift(b)
    return ite(B(ind_le(b - a)), a, b)


def tmin(a, b):
    a, b = lift(a), lift(b)
    return ite(B(ind_le(a - b)), a, b)


def vid(v):
    return next(iter(v.fv()))


def app_of(t):
    """name of the function if t is a plain application, else None"""
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            at = atom(mono[0][0])
            if at.kind == "app":
                return at.args[0]
    return None


def app_arg(t, k=0):
    (mono, c), = t.m.items()
    return lift(atom(mono[0][0]).args[3 + k])
