"""Execution context of one symbolic path."""
import weakref
from fractions import Fraction

from . import term as tm
from .term import T, B, ZERO, ONE, lift, as01, Unsupported
from .solve import Facts


class PathAbort(BaseException):
    """the current path is infeasible or finished early"""


class Ctx:
    def __init__(self):
        self.facts = Facts()
        self.guards = []          # stack of 01 T's of merged branches
        self.guard_facts = []
        self.decisions = []       # decisions taken so far (forks)
        self.plan = []            # decisions to replay
        self.fork_points = []     # open alternatives discovered
        self.obligations = []     # list of Obligation
        self.roots = []           # weakrefs of array roots, creation order
        self.attr_log = None      # list of (obj, name, had, old) while logging
        self.log_stack = []
        self.loop_depth = 0
        self.defchecks = True
        self.name_prefix = ""
        self.assumed = set()
        self.no_merge = False
        self.calls = []
        self.finished = False     # the path has been explored to its end

    # -- facts ----------------------------------------------------------
    def assume(self, *bs):
        self.facts = self.facts.extend(*bs)

    def cur_facts(self):
        if not self.guards:
            return self.facts
        key = tuple(id(g) for g in self.guards)
        if self.guard_facts and self.guard_facts[0] == key and self.guard_facts[1] is self.facts:
            return self.guard_facts[2]
        f = self.facts.extend(*[B(g) for g in self.guards])
        self.guard_facts = [key, self.facts, f]
        return f

    def guard(self):
        g = ONE
        for x in self.guards:
            g = g * x
        return g

    # -- forks -----------------------------------------------------------
    def truth(self, b):
        t = b.t
        f = self.cur_facts()
        d = f.decide(t)
        if d is not None:
            return d
        if self.guards:
            raise Unsupported("control flow on a symbolic condition inside a merged branch")
        if self.finished:
            raise Unsupported("control flow on a symbolic condition in a delayed computation")
        if t.fv() & tm.FRESH:
            raise Unsupported("control flow on a condition about a generic index")
        i = len(self.decisions)
        if i < len(self.plan):
            v = self.plan[i]
        else:
            v = True
            self.fork_points.append(self.decisions + [False])
        self.decisions.append(v)
        self.facts = self.facts.extend(b if v else ~b)
        return v


CTX = [Ctx()]


def ctx():
    return CTX[0]


tm._truth_hook[0] = lambda b: CTX[0].truth(b)


def _div(p):
    c = CTX[0]
    if not c.defchecks or p.is_const():
        return
    c.check_def("division by a nonzero value", B(ONE - tm.ind_eq(p)))


def check_def(self, what, b):
    """well-definedness side obligation (division, index range)"""
    from . import solve
    if solve.GENERATING[0]:
        return      # terms written down as facts; where the code itself evaluates them they are checked
    f = self.cur_facts()
    ok = f.decide(as01(b))
    if ok is True:
        self.defs_ok = getattr(self, "defs_ok", 0) + 1
    else:
        self.defs_bad = getattr(self, "defs_bad", [])
        if len(self.defs_bad) < 50:
            self.defs_bad.append((what, as01(b), f, ok))


Ctx.check_def = check_def
Ctx.defs_ok = 0
tm._div_hook[0] = _div
