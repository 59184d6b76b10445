"""Sections, obligations and path exploration."""
import linecache
import os
import time
import traceback

from . import term as tm
from . import solve
from . import arr as A
from . import ctx as C
from . import runtime as R
from .term import T, B, ZERO, ONE, lift, as01, Unsupported
from .ctx import ctx
from .loader import Loader


class SpecGone(Exception):
    """the contract does not attach to the current source (function or signature gone)"""


class Path:
    def __init__(self, c, value, exc):
        self.ctx, self.value, self.exc = c, value, exc


_ENGINE_NAMES = []


def _engine_function(name):
    """is `name` a function of the engine (and of nothing that is under verification)?"""
    if not _ENGINE_NAMES:
        import ast
        import re
        root = os.path.dirname(os.path.abspath(__file__))
        own = set()
        for fn in sorted(os.listdir(root)):
            if fn.endswith(".py"):
                with open(os.path.join(root, fn), encoding="utf-8") as f:
                    for n in ast.walk(ast.parse(f.read())):
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                            own.add(n.name)
        code = set()
        for dp, _, fs in os.walk(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "conmech")):
            for fn in fs:
                if fn.endswith(".py"):
                    with open(os.path.join(dp, fn), encoding="utf-8", errors="replace") as f:
                        code |= set(re.findall(r"\b(?:def|class) (\w+)", f.read()))
        _ENGINE_NAMES.append(own - code - {"__init__"})
    return name in _ENGINE_NAMES[0] or name == "<lambda>"


def _is_engine_object(o):
    mod = getattr(o, "__module__", None) if callable(o) and not isinstance(o, type) else None
    for m in (mod, type(o).__module__, getattr(o, "__module__", None) if isinstance(o, type) else None):
        if isinstance(m, str) and m.split(".")[0] == "pyvc":
            return True
    return False


def engine_error(e):
    """raised by a limit of the engine, not by the code under verification: it says nothing about the code"""
    import re
    import numpy as rnp
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None and _is_engine_object(e.obj):
        o = e.obj
        if isinstance(o, A.Arr):
            return hasattr(rnp.ndarray, e.name)
        if isinstance(o, (T, B)):
            return hasattr(rnp.float64, e.name)
        return True
    if isinstance(e, TypeError):
        m = re.match(r"(?:[\w.<>]*\.)?([\w<>]+)\(\) (got an unexpected|got multiple|takes|missing)", str(e))
        if m and _engine_function(m.group(1)):
            return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    name = tb.tb_frame.f_code.co_filename
    if os.path.dirname(os.path.abspath(name)) != os.path.dirname(os.path.abspath(__file__)):
        return False
    line = linecache.getline(name, tb.tb_lineno).strip()
    return not line.startswith("raise")


def explore(fn, max_paths=200):
    """all feasible paths of fn(); fn creates its inputs itself (same names on every path)"""
    for _ in range(40):
        plans = [[]]
        out = []
        try:
            while plans:
                plan = plans.pop()
                c = C.Ctx()
                c.plan = plan
                C.CTX[0] = c
                exc = val = None
                try:
                    val = fn()
                except C.PathAbort:
                    continue
                except Exception as e:      # an exception of the code under verification
                    if engine_error(e):
                        raise Unsupported("symbolic execution: " + "".join(traceback.format_exception(e))[-600:]) from e
                    exc = e
                plans.extend(c.fork_points)
                c.finished = True
                if not c.facts.consistent():
                    continue
                out.append(Path(c, val, exc))
                if len(out) > max_paths:
                    raise Unsupported("too many paths")
            return out
        except R.NeedFork as e:
            if e.site in R.FORK_SITES:
                raise Unsupported(f"conditional at {e.site} can be neither merged nor forked")
            R.FORK_SITES.add(e.site)
    raise Unsupported("too many forks")


class Section:
    """one group of obligations, run in its own process"""
    def __init__(self, name):
        self.name = name
        self.results = []       # dicts
        self.assumptions = []
        self.notes = []
        self.executed = set()
        self.loader = None

    # -- environment
    def load(self, mod):
        if self.loader is None:
            self.loader = Loader()
        return self.loader.load(mod)

    def get(self, mod, name):
        m = self.load(mod)
        cur = m
        for p in name.split("."):
            if not hasattr(cur, p):
                raise SpecGone(f"{mod}.{name} does not exist")
            cur = getattr(cur, p)
        return cur

    def assume_text(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    # -- obligations
    def record(self, name, status, how="", detail="", t=0.0, fn=""):
        self.results.append(dict(name=f"{self.name}/{name}", status=status, how=how, detail=str(detail)[:1500], t=round(t, 3), fn=fn))
        return status == "proved"

    @staticmethod
    def beyond(e):
        """an obligation whose terms the verifier cannot evaluate is out of reach, neither discharged nor failed"""
        if "time budget" in str(e):
            raise e
        return solve.Result("beyond", "", f"{e}")

    def zero(self, name, p, facts=None, fn=""):
        """obligation: p == 0"""
        f = facts or ctx().cur_facts()
        t0 = time.time()
        try:
            r = solve.prove_zero(lift(p), f)
            if r.status != "proved" and f.weak() is not None:
                raise f.weak()
        except Unsupported as e:
            r = self.beyond(e)
        if r.status != "proved":
            num = numeric_zero(lift(p), f)
            if num is not None:
                r.detail += f" | numeric: {num}"
        return self.record(name, r.status, r.how, r.detail, time.time() - t0, fn)

    def eq(self, name, a, b, facts=None, fn=""):
        if isinstance(a, (B, bool)) or isinstance(b, (B, bool)):
            return self.zero(name, as01(a) - as01(b), facts, fn)
        return self.zero(name, lift(a) - lift(b), facts, fn)

    def true(self, name, b, facts=None, fn=""):
        f = facts or ctx().cur_facts()
        t0 = time.time()
        if isinstance(b, bool):
            return self.record(name, "proved" if b else "refuted", "evaluation", "" if b else "false", 0.0, fn)
        try:
            r = solve.prove_bool(b, f)
            if r.status != "proved" and f.weak() is not None:
                raise f.weak()
        except Unsupported as e:
            r = self.beyond(e)
        return self.record(name, r.status, r.how, r.detail, time.time() - t0, fn)

    def array_eq(self, name, a, spec, facts=None, shape=None, fn="", split=None):
        """for every index: a[idx] == spec(idx). split: {axis: [index terms]} to treat blocks separately"""
        c = ctx()
        if shape is not None:
            ok = len(a.shape) == len(shape) and all(A.dims_equal(x, y) for x, y in zip(a.shape, shape))
            self.record(name + ".shape", "proved" if ok else "refuted", "dimensions", "" if ok else f"{a.shape} vs {shape}", 0.0, fn)
            if not ok:
                return False
        idxs = [[]]
        fs = []
        old = c.facts
        base = facts or old
        combos = [((), ())]
        for k, d in enumerate(a.shape):
            nxt = []
            for idx, ff in combos:
                if isinstance(d, int):
                    for j in range(d):
                        nxt.append((idx + (j,), ff))
                else:
                    v = tm.fresh(f"a{k}_", True)
                    nxt.append((idx + (v,), ff + (v >= 0, v < d)))
            combos = nxt
        ok = True
        for idx, ff in combos:
            c.facts = base.extend(*ff)
            try:
                got = a.get(idx)
                want = spec(idx)
                tag = ",".join(str(i) if isinstance(i, int) else "*" for i in idx)
                ok &= self.eq(f"{name}[{tag}]", got, want, c.facts, fn)
            finally:
                c.facts = old
        return ok

    def unchanged(self, name, before, arr, fn=""):
        """frame: the array still has the entries `before` (a frozen reader)"""
        return self.array_eq(name, arr, before, fn=fn)

    def defs(self, name, c=None, ignore=()):
        """well-definedness obligations (divisions, index ranges) collected on the path"""
        c = c or ctx()
        bad = [b for b in c.__dict__.get("defs_bad", []) if b[0] not in ignore]
        n = c.defs_ok
        still = []
        for what, t, f, ok in bad:
            r = solve.prove_bool(B(t), f)
            if r.status != "proved":
                still.append((what, t, r))
            else:
                n += 1
        if not still:
            self.record(name, "proved", "z3", f"{n} side conditions", 0.0)
            return True
        for what, t, r in still[:3]:
            self.record(f"{name}: {what}", r.status if r.status != "refuted" else "unknown", r.how, f"{t!r} {r.detail}")
        return False

    def nonvacuous(self, name="assumptions are satisfiable", c=None):
        c = c or ctx()
        ok = c.facts.consistent()
        self.record(name, "proved" if ok else "unknown", "z3", "" if ok else "inconsistent assumptions")

    def no_exception(self, name, paths):
        ok = True
        for p in paths:
            if p.exc is not None:
                ok = False
                self.record(name, "refuted", "symbolic execution", f"{type(p.exc).__name__}: {p.exc} on path {p.ctx.decisions}")
        if ok:
            self.record(name, "proved", "symbolic execution", f"{len(paths)} path(s)")
        return ok


def numeric_zero(p, facts):
    return None


def run_section(args):
    """worker: returns a plain dict"""
    name, fn, budget = args
    t0 = time.time()
    s = Section(name)
    status, err = "ok", ""
    solve.STATS.update(z3_queries=0, z3_time=0.0)
    import signal

    def boom(*a):
        raise Unsupported(f"time budget of {budget} s exceeded")
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(budget))
    try:
        C.CTX[0] = C.Ctx()
        fn(s)
    except Unsupported as e:
        status, err = "unsupported", str(e)[:600]
    except R.NeedFork as e:
        status, err = "unsupported", f"conditional at {e.site}"
    except SpecGone as e:
        status, err = "gone", str(e)
    except RecursionError as e:
        traceback.print_exc(limit=-40) if os.environ.get("DBG") else None
        status, err = "unsupported", "recursion"
    except MemoryError:
        status, err = "unsupported", "memory"
    except Exception as e:
        status, err = "error", "".join(traceback.format_exception(e))[-1500:]
    finally:
        signal.alarm(0)
    ex = sorted(s.loader.vc.executed) if s.loader else []
    return dict(name=name, status=status, error=err, results=s.results, assumptions=s.assumptions, notes=s.notes,
                executed=ex, wall=time.time() - t0, z3_queries=solve.STATS["z3_queries"], z3_time=solve.STATS["z3_time"])
