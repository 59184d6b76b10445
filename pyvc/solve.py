"""Facts, simplification under facts, and discharging of obligations.

Back ends, in order: (1) exact polynomial normal form with indicator case analysis,
sum calculus and denominator clearing; (2) z3 on the residual, sum-free goal."""
import time
from fractions import Fraction
import z3

from . import term as tm
from .term import T, B, ZERO, ONE, lift, as01, atom, of_atom, subst

STATS = {"z3_queries": 0, "z3_time": 0.0}


# ------------------------------------------------------------------ axioms attached to functions
FUN_FACTS = {}       # fname -> callable(*args) -> list of B : facts valid for these arguments
INV_MATS = {}        # fname of an inverse matrix -> (n, entry function of the inverted matrix)


def reset():
    FUN_FACTS.clear()
    INV_MATS.clear()


# ------------------------------------------------------------------ z3 translation
class Z3:
    def __init__(self):
        self.atoms = {}
        self.side = []
        self.funs = {}

    def fun(self, name, n, is_int):
        k = (name, n, is_int)
        f = self.funs.get(k)
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * n), z3.IntSort() if is_int else z3.RealSort())
            self.funs[k] = f
        return f

    def real(self, t):
        e = self.poly(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def poly(self, t):
        is_int = t.is_int()
        parts = []
        for mono, c in t.m.items():
            fs = []
            for a, e in mono:
                x = self.atom(atom(a))
                if not is_int and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                fs += [x] * e
            if is_int:
                cc = z3.IntVal(c.numerator)
            else:
                cc = z3.RealVal(c)
            if not fs:
                parts.append(cc)
            else:
                x = fs[0]
                for y in fs[1:]:
                    x = x * y
                parts.append(x if c == 1 else cc * x)
        if not parts:
            return z3.IntVal(0) if is_int else z3.RealVal(0)
        if len(parts) == 1:
            return parts[0]
        return z3.Sum(parts)

    def cond(self, at):
        """atomic indicator -> z3 Bool"""
        if at.kind == "ind":
            p = self.poly(at.args[1])
            return p == 0 if at.args[0] == "eq" else p <= 0
        if at.kind == "app" and at.args[2]:
            args = [self.real(x) for x in at.args[3:]]
            k = ("pred", at.args[0], len(args))
            f = self.funs.get(k)
            if f is None:
                f = z3.Function("p!" + at.args[0], *([z3.RealSort()] * len(args)), z3.BoolSort())
                self.funs[k] = f
            return f(*args)
        if at.kind == "exi":
            lo, hi, b = at.args
            bv = tm.bound(at.depth, 0)
            zv = z3.Int(f"q!{at.id}")
            old = self.atoms.get(tm.vid(bv))
            self.atoms[tm.vid(bv)] = zv
            try:
                body = self.bool(b)
                l, h = self.poly(lo), self.poly(hi)
            finally:
                if old is None:
                    del self.atoms[tm.vid(bv)]
                else:
                    self.atoms[tm.vid(bv)] = old
            return z3.Exists([zv], z3.And(l <= zv, zv < h, body))
        raise AssertionError(at.kind)

    def bool(self, t):
        """0/1 T -> z3 Bool"""
        if t.is_const():
            return z3.BoolVal(bool(t.const()))
        if len(t.m) == 1:
            (mono, c), = t.m.items()
            if c == 1 and all(atom(a).is01 for a, _ in mono):
                cs = [self.cond(atom(a)) for a, _ in mono]
                return cs[0] if len(cs) == 1 else z3.And(cs)
        n = ONE - t
        if len(n.m) == 1:
            (mono, c), = n.m.items()
            if c == 1 and all(atom(a).is01 for a, _ in mono):
                cs = [self.cond(atom(a)) for a, _ in mono]
                return z3.Not(cs[0] if len(cs) == 1 else z3.And(cs))
        # general: polynomial over indicators
        return self.poly(t) == 1

    def atom(self, at):
        # atoms with bound variables inside a quantifier must not be cached globally
        cacheable = not any(tm.is_bound_name(atom(v).args[0]) for v in at.fv)
        if at.id in self.atoms:
            return self.atoms[at.id]
        k, a = at.kind, at.args
        if k == "var":
            e = z3.Int(a[0]) if a[1] else z3.Real(a[0])
            cacheable = True
        elif k == "app":
            if a[2]:
                e = z3.If(self.cond(at), z3.IntVal(1), z3.IntVal(0))
            else:
                args = [self.real(x) for x in a[3:]]
                e = self.fun(a[0], len(args), a[1])(*args) if args else (
                    z3.Int(a[0]) if a[1] else z3.Real(a[0]))
        elif k in ("ind", "exi"):
            e = z3.If(self.cond(at), z3.IntVal(1), z3.IntVal(0))
        elif k in ("inv", "inv1"):
            base = a[0] if k == "inv" else of_atom(atom(a[0]))
            e = z3.Real(f"inv!{at.id}")
            if cacheable:
                b = self.real(base)
                self.side.append(z3.Implies(b != 0, e * b == 1))
        elif k == "sqrt":
            e = z3.Real(f"sqrt!{at.id}")
            if cacheable:
                b = self.real(a[0])
                self.side.append(e >= 0)
                self.side.append(z3.Implies(b >= 0, e * e == b))
        elif k == "idiv":
            p, q = self.poly(a[0]), self.poly(a[1])
            e = p / q  # z3 int div: floor for positive divisor
        elif k == "sum":
            e = z3.Int(f"sum!{at.id}") if at.is_int else z3.Real(f"sum!{at.id}")
            if not cacheable:
                raise tm.Unsupported("sum with a quantified variable")
        else:
            raise AssertionError(k)
        if cacheable:
            self.atoms[at.id] = e
        return e


def _app_atoms(t, out, seen):
    """all app atoms (deep, outside binders) in t"""
    for aid in t.atoms():
        _app_atoms_a(atom(aid), out, seen)


def _app_atoms_a(at, out, seen):
    if at.id in seen:
        return
    seen.add(at.id)
    k, a = at.kind, at.args
    if k == "app":
        if not any(tm.is_bound_name(atom(v).args[0]) for v in at.fv):
            out.append(at)
        for x in a[3:]:
            _app_atoms(x, out, seen)
    elif k == "ind":
        _app_atoms(a[1], out, seen)
    elif k == "inv1":
        _app_atoms_a(atom(a[0]), out, seen)
    elif k in ("inv", "sqrt"):
        _app_atoms(a[0], out, seen)
    elif k == "idiv":
        _app_atoms(a[0], out, seen)
        _app_atoms(a[1], out, seen)
    elif k == "exi":
        for x in a:
            _app_atoms(x, out, seen)
    elif k == "sum":
        if not any(tm.is_bound_name(atom(v).args[0]) for v in at.fv):
            for lo, hi in a[0]:
                _app_atoms(lo, out, seen)
                _app_atoms(hi, out, seen)


GENERATING = [0]        # facts about functions are being written down: array reads must not ask the facts


class Facts:
    """an immutable conjunction of facts with a decision cache"""

    def __init__(self, facts=(), parent=None):
        self.own = [as01(f) for f in facts]
        self.parent = parent
        self.all = (parent.all if parent else []) + self.own
        self.cache = {}
        self.implied = {}
        self._some = None
        self._solver = None
        self._inst = None
        self.simp_memo = {}
        self.eqs = None

    def extend(self, *fs):
        fs = [as01(f) for f in fs]
        fs = [f for f in fs if f is not ONE]
        if not fs:
            return self
        return Facts(fs, self)

    def _base(self):
        if self._solver is None:
            z = Z3()
            s = z3.Solver()
            s.set("timeout", 3000)
            self._z = z
            seen, apps = set(), []
            for f in self.all:
                _app_atoms(f, apps, seen)
            inst = set()
            fs = list(self.all)
            self._add_instances(apps, inst, fs, seen)
            n = 0
            self._weak = None
            for f in fs:
                try:
                    s.add(z.bool(f))
                except tm.Unsupported as e:        # fewer facts prove less; nothing is refuted without it
                    self._weak = e
            for x in z.side:
                s.add(x)
            z.nside = len(z.side)
            self._solver = s
            self._inst = inst
        return self._solver, self._z

    def _add_instances(self, apps, inst, out, seen):
        queue = list(apps)
        rounds = 0
        while queue and rounds < 400:
            rounds += 1
            at = queue.pop()
            if at.id in inst:
                continue
            inst.add(at.id)
            ff = FUN_FACTS.get(at.args[0])
            if ff is None:
                continue
            GENERATING[0] += 1
            try:
                made = ff(*at.args[3:])
            finally:
                GENERATING[0] -= 1
            for b in made:
                t = as01(b)
                if t is ONE:
                    continue
                out.append(t)
                more = []
                _app_atoms(t, more, seen)
                queue.extend(more)

    def check(self, goal01, timeout=3000):
        """is goal implied? returns ('proved',None) / ('refuted', model) / ('unknown', reason)"""
        s, z = self._base()
        t0 = time.time()
        STATS["z3_queries"] += 1
        s.push()
        try:
            s.set("timeout", timeout)
            apps, seen = [], set()
            _app_atoms(goal01, apps, seen)
            extra = []
            inst = set(self._inst)
            self._add_instances(apps, inst, extra, seen)
            n0 = len(z.side)
            for f in extra:
                s.add(z.bool(f))
            g = z.bool(goal01)
            s.add(z3.Not(g))
            for x in z.side[z.nside:]:
                s.add(x)
            r = s.check()
            if r == z3.unsat:
                return "proved", None
            if self._weak is not None:
                raise self._weak
            if r == z3.sat:
                return "refuted", s.model()
            return "unknown", s.reason_unknown()
        finally:
            s.pop()
            STATS["z3_time"] += time.time() - t0

    def decide(self, t):
        """t: 0/1 T. True/False/None"""
        t = as01(t)
        if t.is_const():
            return bool(t.const())
        r = self.cache.get(t.key, 0)
        if r != 0:
            return r
        r = None
        for g, v in ((t, True), (ONE - t, False)):
            try:
                if self.check(g, 1500)[0] == "proved":
                    r = v
                    break
            except tm.Unsupported:
                pass
        self.cache[t.key] = r
        return r

    def implies(self, b):
        t = as01(b)
        if t.is_const():
            return bool(t.const())
        if t.key in self.cache:
            return self.cache[t.key] is True
        r = self.implied.get(t.key)
        if r is None:
            try:
                r = self.check(t, 1500)[0] == "proved"
            except tm.Unsupported:
                r = False
            self.implied[t.key] = r
            if r:
                self.cache[t.key] = True
        return r

    def weak(self):
        """the reason why a fact could not be written down for the solver, or None"""
        self._base()
        return self._weak

    def consistent(self):
        s, z = self._base()
        s.set("timeout", 3000)
        return s.check() != z3.unsat

    def some_model(self):
        if self._some is None:
            self._some = (self.model(),)
        return self._some[0]

    def model(self):
        s, z = self._base()
        s.set("timeout", 5000)
        if s.check() == z3.sat:
            return s.model()
        return None


# ------------------------------------------------------------------ simplification under facts
def simp(t, facts, deep=True):
    r = facts.simp_memo.get(t.key)
    if r is not None:
        return r
    cur = t
    for _ in range(6):
        nxt = _simp1(cur, facts)
        if nxt is cur:
            break
        cur = nxt
    facts.simp_memo[t.key] = cur
    facts.simp_memo[cur.key] = cur
    return cur


def _simp1(t, facts):
    res = ZERO
    changed = False
    plain = {}
    memo = {}
    for mono, c in t.m.items():
        parts = []
        ch = False
        zero = False
        for a, e in mono:
            at = atom(a)
            s = memo.get(a)
            if s is None:
                s = _simp_atom(at, facts)
                memo[a] = s
            if not s.m:
                zero = True
                break
            if not (len(s.m) == 1 and s.m.get(((a, 1),)) == 1):
                ch = True
            parts.append((s, e))
        if zero:
            changed = True
            continue
        if not ch:
            plain[mono] = plain.get(mono, 0) + c
        else:
            changed = True
            x = T.make({(): c})
            for s, e in parts:
                x = x * s ** e
            res = res + x
    if not changed:
        return t
    return res + T.make(plain)


def _is_idx_cond(at):
    """conditions worth asking the solver about during simplification"""
    return True


def _simp_atom(at, facts):
    k = at.kind
    if k in ("var",):
        return of_atom(at)
    if k == "app":
        if at.args[2]:
            d = facts.decide(of_atom(at))
            if d is not None:
                return ONE if d else ZERO
        if len(at.args) > 3:
            return tm.rebuild(at, None, lambda x: simp(x, facts))
        return of_atom(at)
    if k == "ind":
        if any(tm.is_bound_name(atom(v).args[0]) for v in at.fv):
            return of_atom(at)
        r = tm.rebuild(at, None, lambda x: simp(x, facts))
        if len(r.m) == 1 and not r.is_const():
            (mono, c), = r.m.items()
            if len(mono) == 1 and c == 1:
                d = facts.decide(r)
                if d is not None:
                    return ONE if d else ZERO
        return r
    if k == "idiv":
        p, q = simp(at.args[0], facts), simp(at.args[1], facts)
        return idiv_simp(p, q, facts)
    if k in ("inv", "inv1", "sqrt"):
        return tm.rebuild(at, None, lambda x: simp(x, facts))
    if k == "exi":
        d = facts.decide(of_atom(at))
        if d is not None:
            return ONE if d else ZERO
        return of_atom(at)
    if k == "sum":
        return simp_sum(at, facts)
    raise AssertionError(k)


def _quotients(p, q, facts):
    """the quotients worth trying, the one of some model of the facts alone if there is one"""
    try:
        m = facts.some_model()
        if m is None:
            return (0, 1, 2, 3, -1)
        z = facts._z
        a, b = (m.eval(z.poly(x), model_completion=True) for x in (p, q))
        a, b = (Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else Fraction(x.as_long()) for x in (a, b))
        k = a // b
    except Exception:
        return (0, 1, 2, 3, -1)
    return (k,) if k in (0, 1, 2, 3, -1) else ()


def idiv_simp(p, q, facts):
    r = tm.idiv(p, q)
    if len(r.m) == 1 and r.is_const():
        return r
    # residual atoms idiv(p', q): decide small quotients
    res = ZERO
    for mono, c in r.m.items():
        x = T.make({(): c})
        for a, e in mono:
            at = atom(a)
            y = of_atom(at)
            if at.kind == "idiv":
                pp, qq = at.args
                if facts.implies(B(tm.ind_le(ONE - qq))):
                    for kk in _quotients(pp, qq, facts):
                        if facts.implies((qq * kk <= pp) & (pp < qq * (kk + 1))):
                            y = lift(kk)
                            break
            x = x * y ** e
        res = res + x
    return res


def simp_sum(at, facts):
    rs, body = tm.open_sum(at)
    f = facts
    nrs = []
    for v, lo, hi in rs:
        lo2, hi2 = simp(lo, f), simp(hi, f)
        if f.implies(hi2 <= lo2):
            return ZERO
        f = f.extend(v >= lo2, v < hi2)
        nrs.append((v, lo2, hi2))
    b = simp(body, f)
    # block splitting of ranges c*n when body contains floor divisions by n in v
    for i, (v, lo, hi) in enumerate(nrs):
        blk = find_block(b, v, lo, hi)
        if blk is not None:
            n, cnt = blk
            res = ZERO
            for d in range(cnt):
                w = tm.fresh("s", True)
                s = {tm.vid(v): n * d + w}
                r2 = [(x, subst(l, s), subst(h, s)) if j != i else (w, ZERO, n) for j, (x, l, h) in enumerate(nrs)]
                x = tm.close_sum(r2, subst(body, s))
                res = res + x
            return res
    # clipping of ranges by inequality indicators on a bound variable
    res = ZERO
    for mono, c in b.m.items():
        res = res + c * clip(nrs, mono, facts)
    return res


def find_block(b, v, lo, hi):
    """range [0, c*n) and body mentions idiv(.., n) with v: return (n, c)"""
    if not lo.is_const() or lo.const() != 0:
        return None
    vid = tm.vid(v)
    for q in _idiv_by(b, vid):
        if q.is_const():
            continue
        for cnt in (2, 3):
            if (hi - q * cnt) is ZERO:
                return q, cnt
    return None


def _idiv_by(t, vid, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for aid in t.atoms():
        _idiv_by_a(atom(aid), vid, out, seen)
    return out


def _idiv_by_a(at, vid, out, seen):
    if at.id in seen or vid not in at.fv:
        return
    seen.add(at.id)
    k, a = at.kind, at.args
    if k == "idiv":
        out.append(a[1])
        _idiv_by(a[0], vid, out, seen)
    elif k == "app":
        for x in a[3:]:
            _idiv_by(x, vid, out, seen)
    elif k == "ind":
        _idiv_by(a[1], vid, out, seen)
    elif k == "inv1":
        _idiv_by_a(atom(a[0]), vid, out, seen)
    elif k in ("inv", "sqrt"):
        _idiv_by(a[0], vid, out, seen)
    elif k == "sum":
        _idiv_by(a[1], vid, out, seen)


def clip(rs, mono, facts):
    """sum over rs of monomial; turn [v<=E]-style factors into range bounds when provable"""
    vids = [tm.vid(r[0]) for r in rs]
    for a, e in mono:
        at = atom(a)
        if at.kind != "ind" or at.args[0] != "le":
            continue
        for i, (v, lo, hi) in enumerate(rs):
            if vids[i] not in at.fv:
                continue
            p = at.args[1]
            co = p.m.get(((vids[i], 1),))
            if co not in (1, -1):
                continue
            rest = p - co * v
            if vids[i] in rest.fv() or any(w in rest.fv() for w in vids[i + 1:]):
                continue
            # facts incl. outer bound variables
            f = facts
            for x, l, h in rs[:i]:
                f = f.extend(x >= l, x < h)
            others = tuple(x for x in mono if x[0] != a)
            if co == 1:      # v <= -rest : upper bound 1-rest
                nh = ONE - rest
                if f.implies((nh <= hi) & (lo <= nh)):
                    nr = list(rs)
                    nr[i] = (v, lo, nh)
                    return clip(nr, others, facts)
                if f.implies(nh >= hi):
                    return clip(rs, others, facts)
                if f.implies(nh <= lo):
                    return ZERO
            else:            # v >= rest
                nl = rest
                if f.implies((nl >= lo) & (nl <= hi)):
                    nr = list(rs)
                    nr[i] = (v, nl, hi)
                    return clip(nr, others, facts)
                if f.implies(nl <= lo):
                    return clip(rs, others, facts)
                if f.implies(nl >= hi):
                    return ZERO
    # shift lower bounds to zero
    for i, (v, lo, hi) in enumerate(rs):
        if lo is not ZERO and not (lo.is_const() and hi.is_const()):
            w = tm.fresh("s", True)
            s = {vids[i]: w + lo}
            nr = [(x, subst(l, s), subst(h, s)) if j != i else (w, ZERO, hi - lo) for j, (x, l, h) in enumerate(rs)]
            return tm.close_sum(nr, subst(T.make({mono: Fraction(1)}), s))
    r = contract_inverse(rs, mono, facts)
    if r is not None:
        return r
    return tm.close_sum(rs, T.make({mono: Fraction(1)}))


def contract_inverse(rs, mono, facts):
    """sum_k M(i,k)*Minv(k,j) = [i==j], and the other way round"""
    vids = [tm.vid(r[0]) for r in rs]
    for a, e in mono:
        at = atom(a)
        if at.kind != "app" or at.args[0] not in INV_MATS or e != 1:
            continue
        n, entry = INV_MATS[at.args[0]]
        r_, c_ = at.args[3], at.args[4]
        for side in (0, 1):
            kt, other = (r_, c_) if side == 0 else (c_, r_)
            # kt must be exactly one bound variable v with range [0,n)
            for i, (v, lo, hi) in enumerate(rs):
                if kt is not v or lo is not ZERO:
                    continue
                blocks = 1
                if (hi - n) is not ZERO:
                    blocks = next((d for d in (2, 3) if (hi * d - n) is ZERO), 0)
                    if not blocks:
                        continue
                if vids[i] in other.fv():
                    continue
                if any(vids[i] in l.fv() or vids[i] in h.fv() for j, (x, l, h) in enumerate(rs) if j != i):
                    continue
                fac = tuple(x for x in mono if x[0] != a and vids[i] in atom(x[0]).fv)
                oth = tuple(x for x in mono if x[0] != a and vids[i] not in atom(x[0]).fv)
                if len(fac) != 1 or fac[0][1] != 1:
                    continue
                fat = of_atom(atom(fac[0][0]))
                # find i' such that entry(i', v) == fat   (side 0) / entry(v, i') == fat (side 1)
                f = facts
                for x, l, h in rs:
                    f = f.extend(x >= l, x < h)
                for cand in match_entry(entry, n, v, fat, side, f):
                    rest = T.make({oth: Fraction(1)})
                    res = rest * tm.ind_eq(cand - other)
                    nr = [x for j, x in enumerate(rs) if j != i]
                    res = tm.close_sum(nr, res) if nr else res
                    # first block of the index range: the whole sum less the other blocks
                    for b in range(1, blocks):
                        k2 = hi * b + v
                        e2 = simp(entry(cand, k2) if side == 0 else entry(k2, cand), f)
                        m2 = tm.app(at.args[0], (k2, other) if side == 0 else (other, k2))
                        res = res - tm.close_sum(rs, rest * e2 * m2)
                    return res
    return None


def match_entry(entry, n, v, fat, side, facts):
    """solve entry(i,v)==fat for i by matching app arguments linearly"""
    probe = tm.fresh("m", True)
    f2 = facts.extend(probe >= 0, probe < n)
    for sample in _entry_variants(entry, n, v, probe, side, f2):
        cond, ent, mk = sample
        if len(ent.m) != 1:
            continue
        (mono, c), = ent.m.items()
        if c != 1 or len(mono) != 1:
            continue
        ea, (fa,) = atom(mono[0][0]), [x for x in fat.m][0]
        fa = atom(fa[0])
        if ea.kind != "app" or fa.kind != "app" or ea.args[0] != fa.args[0]:
            continue
        sol = None
        ok = True
        for x, y in zip(ea.args[3:], fa.args[3:]):
            if tm.vid(probe) in x.fv():
                s = tm.solve_linear(x - y, tm.vid(probe))
                if s is None or (sol is not None and s is not sol):
                    ok = False
                    break
                sol = s
            elif x is not y:
                if not facts.implies(B(tm.ind_eq(x - y))):
                    ok = False
                    break
        if ok and sol is not None:
            cand = mk(sol)
            if facts.implies((cand >= 0) & (cand < n)):
                yield cand


def _entry_variants(entry, n, v, probe, side, facts):
    """(cond, entry term, map from probe solution to row index), over blocks of the index space"""
    e = entry(probe, v) if side == 0 else entry(v, probe)
    e = simp(e, facts)
    yield None, e, (lambda s: s)
    # block variants: index = d*blk + probe
    for q in _idiv_by(e, tm.vid(probe)):
        if q.is_const():
            continue
        for d in range(3):
            idx = q * d + probe
            f2 = facts.extend(probe >= 0, probe < q)
            e2 = entry(idx, v) if side == 0 else entry(v, idx)
            e2 = simp(e2, f2)
            yield None, e2, (lambda s, d=d, q=q: q * d + s)


# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, status, how="", detail="", model=None):
        self.status = status      # proved / refuted / unknown
        self.how = how
        self.detail = detail
        self.model = model

    def __repr__(self):
        return f"{self.status}({self.how}) {self.detail[:300]}"


def prove_bool(b, facts, depth=0):
    t = simp(as01(b), facts)
    if t is ONE:
        return Result("proved", "simplify")
    if t is ZERO:
        return Result("refuted" if facts.consistent() else "proved", "simplify", "goal is false")
    # equality goals
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c == 1:
            if len(mono) > 1:
                how = []
                for a, e in mono:
                    r = prove_bool(B(of_atom(atom(a))), facts, depth)
                    if r.status != "proved":
                        return r
                    how.append(r.how)
                return Result("proved", how[0])
            at = atom(mono[0][0])
            if at.kind == "ind" and at.args[0] == "eq":
                return prove_zero(at.args[1], facts)
    st, m = facts.check(t, 20000)
    if st == "proved":
        return Result("proved", "z3")
    if st == "refuted":
        # sums are abstracted in z3: a model is only trustworthy without sums
        has_sum = any(_has_sum(atom(a)) for a in t.atoms())
        return Result("unknown" if has_sum else "refuted", "z3", f"goal: {t!r}", m)
    return Result("unknown", "z3", str(m))


_hs = {}


def _has_sum(at):
    r = _hs.get(at.id)
    if r is not None:
        return r
    k, a = at.kind, at.args
    if k == "sum":
        r = True
    elif k == "app":
        r = any(_has_sum(atom(x)) for y in a[3:] for x in y.atoms())
    elif k == "ind":
        r = any(_has_sum(atom(x)) for x in a[1].atoms())
    elif k == "inv1":
        r = _has_sum(atom(a[0]))
    elif k in ("inv", "sqrt"):
        r = any(_has_sum(atom(x)) for x in a[0].atoms())
    elif k == "idiv":
        r = any(_has_sum(atom(x)) for y in a for x in y.atoms())
    else:
        r = False
    _hs[at.id] = r
    return r


def prove_zero(p, facts, depth=0):
    p = simp(lift(p), facts)
    if p is ZERO:
        return Result("proved", "normal form")
    if p.is_const():
        return Result("refuted" if facts.consistent() else "proved", "normal form", f"residual {p!r}")
    # 1. regroup sums with equal ranges
    q, grouped = regroup(p, facts)
    if q is not None:
        if q is ZERO:
            return Result("proved", "normal form+sum congruence")
        p = q
    # 2. clear denominators
    q = clear_denominators(p, facts)
    if q is not None:
        q = simp(q, facts)
        if q is ZERO:
            return Result("proved", "normal form+denominators")
        p = q
    # 3. case split on an indicator (also those under sums' free part)
    cand = split_candidate(p)
    if cand is not None and depth < 12:
        how = "normal form+case split"
        c = B(of_atom(cand))
        for br in (c, ~c):
            f2 = facts.extend(br)
            if not f2.consistent():
                continue
            r = prove_zero(p, f2, depth + 1)
            if r.status != "proved":
                return r
        return Result("proved", how)
    # 4. variables fixed by the facts; difference of sums over nested intervals
    q = use_equalities(p, facts)
    if q is not p:
        return prove_zero(q, facts, depth + 1)
    q = telescope(p, facts)
    if q is not None:
        q = simp(q, facts)
        if q is ZERO:
            return Result("proved", "normal form+interval sums")
        if q is not p and depth < 14:
            return prove_zero(q, facts, depth + 1)
    if not any(_has_sum(atom(a)) for a in p.atoms()):
        st, m = facts.check(tm.ind_eq(p), 20000)
        if st == "proved":
            return Result("proved", "z3")
        if st == "refuted":
            return Result("refuted", "z3", f"residual {p!r}", m)
        return Result("unknown", "z3", f"residual {p!r}")
    return Result("unknown", "normal form", f"residual {p!r}")


def value_in_model(t, facts):
    """an integer k with facts |= t == k, or None"""
    try:
        s, z = facts._base()
        m = facts.model()
        if m is None:
            return None
        v = m.eval(z.poly(t), model_completion=True)
        k = v.as_long() if z3.is_int_value(v) else (v.as_fraction() if z3.is_rational_value(v) else None)
    except (tm.Unsupported, z3.Z3Exception, AttributeError):
        return None
    if k is None or int(k) != k:
        return None
    k = int(k)
    return k if facts.decide(tm.ind_eq(t - k)) is True else None


def use_equalities(p, facts):
    sub = {}
    vs = []
    for i in sorted(p.fv()):
        at = atom(i)
        if at.kind != "var" or not at.is_int:
            continue
        v = of_atom(at)
        k = value_in_model(v, facts)
        if k is not None:
            sub[i] = lift(k)
            continue
        for w in vs:
            if facts.decide(tm.ind_eq(v - w)) is True:
                sub[i] = w
                break
        else:
            vs.append(v)
    return subst(p, sub) if sub else p


def telescope(p, facts):
    """c1*S(0..h1, f) + c2*S(0..h2, f) + ... with ordered h's: rewrite as shifted sums over the intervals"""
    groups = {}
    rest = ZERO
    for mono, c in p.m.items():
        sums = [(a, e) for a, e in mono if atom(a).kind == "sum"]
        if len(sums) == 1 and sums[0][1] == 1 and len(atom(sums[0][0]).args[0]) == 1:
            at = atom(sums[0][0])
            lo, hi = at.args[0][0]
            others = tuple(x for x in mono if x[0] != at.id)
            v = tm.bound(at.depth, 0)
            body = at.args[1]
            groups.setdefault((body.key, others, at.depth), []).append((c, lo, hi, body, v))
        else:
            rest = rest + T.make({mono: c})
    changed = False
    out = rest
    for (bk, others, dep), items in groups.items():
        o = T.make({others: Fraction(1)})
        if len(items) < 2 or any(lo is not ZERO for _, lo, _, _, _ in items):
            for c, lo, hi, body, v in items:
                w = tm.fresh("s", True)
                out = out + c * o * tm.mk_sum(w, lo, hi, subst(body, {tm.vid(v): w}))
            continue
        import functools
        bad = []

        def cmp(x, y):
            d = facts.decide(as01(x[2] <= y[2]))
            if d is True:
                return -1 if facts.decide(as01(y[2] <= x[2])) is not True else 0
            if facts.decide(as01(y[2] <= x[2])) is True:
                return 1
            bad.append((x, y))
            return 0
        its = sorted(items, key=functools.cmp_to_key(cmp))
        if bad or any(facts.decide(as01(x[2] >= 0)) is not True for x in its):
            for c, lo, hi, body, v in items:
                w = tm.fresh("s", True)
                out = out + c * o * tm.mk_sum(w, lo, hi, subst(body, {tm.vid(v): w}))
            continue
        changed = True
        prev = ZERO
        for k, (c, lo, hi, body, v) in enumerate(its):
            co = sum((x[0] for x in its[k:]), Fraction(0))
            if co != 0:
                w = tm.fresh("s", True)
                out = out + co * o * tm.mk_sum(w, ZERO, hi - prev, subst(body, {tm.vid(v): w + prev}))
            prev = hi
    return out if changed else None


def split_candidate(p):
    best = None
    for a in p.atoms():
        at = atom(a)
        if at.kind in ("ind", "exi") or (at.kind == "app" and at.args[2]):
            if best is None or at.id < best.id:
                best = at
    if best is not None:
        return best
    return None


def regroup(p, facts):
    """collect terms sum(ranges, body) with the same ranges and prove the combined body zero"""
    groups = {}
    rest = ZERO
    for mono, c in p.m.items():
        sums = [(a, e) for a, e in mono if atom(a).kind == "sum"]
        if len(sums) == 1 and sums[0][1] == 1:
            at = atom(sums[0][0])
            others = tuple(x for x in mono if x[0] != at.id)
            groups.setdefault(tuple((l.key, h.key) for l, h in at.args[0]), []).append((T.make({others: c}), at))
        else:
            rest = rest + T.make({mono: c})
    if not groups:
        return None, False
    res = rest
    changed = False
    for key, items in groups.items():
        # common fresh variables
        at0 = items[0][1]
        k = len(at0.args[0])
        vs = [tm.fresh("s", True) for _ in range(k)]
        f = facts
        body = ZERO
        for i, (lo, hi) in enumerate(at0.args[0]):
            sub = {tm.vid(tm.bound(at0.depth, j)): vs[j] for j in range(i)}
            f = f.extend(vs[i] >= subst(lo, sub), vs[i] < subst(hi, sub))
        # try the permutation of bound variables that gives zero; start with the canonical one
        for co, at in items:
            sub = {tm.vid(tm.bound(at.depth, j)): vs[j] for j in range(k)}
            body = body + co * subst(at.args[1], sub)
        r = prove_zero(body, f, 6)
        if r.status == "proved":
            changed = True
            continue
        for co, at in items:
            res = res + co * of_atom(at)
    if not changed:
        return None, False
    return simp(res, facts), True


def clear_denominators(p, facts):
    dens = {}
    for mono in p.m:
        for a, e in mono:
            at = atom(a)
            if at.kind in ("inv", "inv1"):
                dens[a] = max(dens.get(a, 0), e)
    if not dens:
        return None
    mult = ONE
    for a, e in dens.items():
        at = atom(a)
        base = at.args[0] if at.kind == "inv" else of_atom(atom(at.args[0]))
        if facts.decide(ONE - tm.ind_eq(base)) is not True:
            return None
    res = ZERO
    for mono, c in p.m.items():
        x = T.make({tuple(y for y in mono if y[0] not in dens): c})
        d = dict(mono)
        for a, e in dens.items():
            at = atom(a)
            base = at.args[0] if at.kind == "inv" else of_atom(atom(at.args[0]))
            x = x * base ** (e - d.get(a, 0))
        res = res + x
    return res
