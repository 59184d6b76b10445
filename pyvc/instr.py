"""Mechanical instrumentation of the repository's source.

Every module is parsed from /repo's working tree on every run and rewritten (AST to AST) so that
it can be executed on symbolic values.  The rewriting keeps the statements and their order; it
only replaces Python's own control constructs by calls into the runtime (_vc_), so that symbolic
conditions and symbolic trip counts are handled:

  float literals            -> exact rationals (arithmetic over the reals)
  a / b, a ** b             -> exact helpers
  and / or / not / in / chained comparisons / conditional expressions -> helpers with thunks
  if / for                  -> the same bodies as local functions sharing the variables (nonlocal)
  x.f = v, x[i] = v, x[i] += v, x.append(v) ... -> logged stores
  comprehensions            -> helpers (symbolic length allowed)
  return in tail position of conditionals -> result variable (so that both branches can be merged)

Dropped: annotations of functions, docstrings, numba decorators (njit is the identity).
"""
import ast
import copy

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "add", "discard", "update",
            "setdefault", "sort", "reverse", "popitem"}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vc(attr):
    return ast.Attribute(value=_name("_vc_"), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_vc(attr), args=list(args), keywords=[])


def _lam(body, params=()):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[],
                           kw_defaults=[], defaults=[]),
        body=body)


def _contains(node, types, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
    """does node (or a list) contain one of types, not looking into nested functions"""
    nodes = node if isinstance(node, list) else [node]
    for n in nodes:
        if isinstance(n, types):
            return True
        if isinstance(n, stop):
            continue
        for c in ast.iter_child_nodes(n):
            if _contains(c, types, stop):
                return True
    return False


def _loop_escape(stmts):
    """break/continue that belongs to the enclosing loop"""
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if _loop_escape(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _loop_escape(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _loop_escape(h.body):
                return True
        for c in getattr(s, "cases", []) or []:
            if _loop_escape(c.body):
                return True
    return False


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # targets are local to the comprehension
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        for s in n.body:
            self.visit(s)

    def visit_Nonlocal(self, n):
        pass

    def visit_Global(self, n):
        pass


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def always_returns(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return always_returns(s.body) and always_returns(s.orelse)
    return False


def has_return_if(stmts):
    """some if at this level contains a return (not inside loops/try/with)"""
    for s in stmts:
        if isinstance(s, ast.If) and _contains([s], (ast.Return,)):
            return True
    return False


def ret_ok(stmts):
    """returns occur only in (nested) ifs or at the end, never inside loops/try/with"""
    for s in stmts:
        if isinstance(s, ast.Return):
            continue
        if isinstance(s, ast.If):
            if not ret_ok(s.body) or not ret_ok(s.orelse):
                return False
            continue
        if _contains([s], (ast.Return,)):
            return False
    return True


def tailify(stmts):
    """structured form: every return becomes _ret_ = value in tail position"""
    out = []
    for k, s in enumerate(stmts):
        rest = stmts[k + 1:]
        if isinstance(s, ast.Return):
            val = s.value if s.value is not None else ast.Constant(value=None)
            out.append(ast.copy_location(ast.Assign(targets=[_name("_ret_", ast.Store())], value=val), s))
            return out
        if isinstance(s, ast.If) and _contains([s], (ast.Return,)):
            body = s.body if always_returns(s.body) else s.body + copy.deepcopy(rest)
            orelse = s.orelse if (s.orelse and always_returns(s.orelse)) else s.orelse + copy.deepcopy(rest)
            n = ast.If(test=s.test, body=tailify(body) or [ast.Pass()],
                       orelse=tailify(orelse))
            out.append(ast.copy_location(n, s))
            return out
        out.append(s)
    return out


def size(stmts):
    return sum(1 for s in stmts for _ in ast.walk(s))


def decontinue(stmts):
    """`if c: ...; continue` + rest  ->  if c: ... else: rest"""
    out = []
    for k, s in enumerate(stmts):
        if isinstance(s, ast.Continue):
            return out
        if isinstance(s, ast.If) and _loop_escape([s]):
            rest = stmts[k + 1:]
            if s.body and isinstance(s.body[-1], ast.Continue):
                body = decontinue(s.body[:-1])
                orelse = decontinue(list(s.orelse) + rest)
                n = ast.If(test=s.test, body=body or [ast.Pass()], orelse=orelse)
                out.append(ast.copy_location(n, s))
                return out
            if s.orelse and isinstance(s.orelse[-1], ast.Continue):
                body = decontinue(list(s.body) + rest)
                orelse = decontinue(s.orelse[:-1])
                n = ast.If(test=s.test, body=body or [ast.Pass()], orelse=orelse)
                out.append(ast.copy_location(n, s))
                return out
        out.append(s)
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self, filename, modname):
        self.filename = filename
        self.modname = modname
        self.scope = []          # stack of dicts per function/class
        self.uid = 0

    # ------------------------------------------------------------------ helpers
    def fresh(self, p):
        self.uid += 1
        return f"_{p}_{self.uid}_"

    @property
    def fn(self):
        for s in reversed(self.scope):
            if s["kind"] == "func":
                return s
            if s["kind"] == "class":
                return None
        return None

    def in_func(self):
        return bool(self.scope) and self.scope[-1]["kind"] == "func"

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            for s in reversed(self.scope):
                if s["kind"] == "class":
                    return "_" + s["name"].lstrip("_") + attr
        return attr

    # ------------------------------------------------------------------ scopes
    def visit_ClassDef(self, node):
        self.scope.append({"kind": "class", "name": node.name})
        node.body = self.block(node.body)
        self.scope.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    def visit_FunctionDef(self, node):
        outer = [s["name"] for s in self.scope]
        qual = ".".join([self.modname] + outer + [node.name])
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        node.returns = None
        params = [x.arg for x in a.posonlyargs + a.args]
        all_params = params + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        gen = _contains(body, (ast.Yield, ast.YieldFrom))
        globs, nonl = set(), set()
        for s in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(s, ast.Global):
                globs.update(s.names)
            if isinstance(s, ast.Nonlocal):
                nonl.update(s.names)
        usesret = False
        if not gen and has_return_if(body) and ret_ok(body):
            nb = tailify(copy.deepcopy(body))
            if size(nb) <= 4 * size(body) + 200:
                body = nb
                usesret = True
        sc = {"kind": "func", "name": node.name, "first": params[0] if params else None,
              "globals": globs, "nonlocals": nonl, "gen": gen}
        local_names = [n for n in assigned(body) if n not in globs and n not in nonl]
        self.scope.append(sc)
        nb = self.block(body)
        self.scope.pop()
        pre = []
        if usesret:
            local_names.append("_ret_") if "_ret_" not in local_names else None
            pre.append(ast.Assign(targets=[_name("_ret_", ast.Store())], value=ast.Constant(value=None)))
            nb = nb + [ast.Return(value=_name("_ret_"))]
        decl = [n for n in local_names if n not in all_params]
        if decl:
            pre.insert(0, ast.If(test=ast.Constant(value=0),
                                 body=[ast.Assign(targets=[_name(n, ast.Store()) for n in decl], value=ast.Constant(value=None))],
                                 orelse=[]))
        g = [s for s in nb if isinstance(s, (ast.Global, ast.Nonlocal))]
        nb = [s for s in nb if not isinstance(s, (ast.Global, ast.Nonlocal))]
        pre = g + [ast.Expr(value=_call("entered", ast.Constant(value=qual)))] + pre
        node.body = pre + (nb or [ast.Pass()])
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        params = [x.arg for x in a.posonlyargs + a.args]
        self.scope.append({"kind": "func", "name": "<lambda>", "first": self.fn["first"] if self.fn else None,
                           "globals": set(), "nonlocals": set(), "gen": False, "lambda": True})
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node

    def _mkbody(self, name, stmts, names, params=()):
        """def name(params): nonlocal names; stmts   (stmts already rewritten)"""
        fnsc = self.fn
        gl = [n for n in names if n in fnsc["globals"]]
        nl = [n for n in names if n not in fnsc["globals"]]
        pre = []
        if gl:
            pre.append(ast.Global(names=gl))
        if nl:
            pre.append(ast.Nonlocal(names=nl))
        return ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=pre + (stmts or [ast.Pass()]), decorator_list=[], returns=None, type_params=[])

    def _names_const(self, names):
        return ast.Tuple(elts=[ast.Constant(value=n) for n in names if n not in self.fn["globals"]], ctx=ast.Load())

    def visit_If(self, node):
        line = node.lineno if hasattr(node, "lineno") else 0
        if not self.in_func() or self.fn is None:
            node.test = self._truth(self.visit(node.test))
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        both = node.body + node.orelse
        escape = (_contains(both, (ast.Return, ast.Yield, ast.YieldFrom, ast.Raise, ast.Global, ast.Nonlocal))
                  or _loop_escape(both))
        if escape:
            test = self._truth(self.visit(node.test))
            n = ast.If(test=test, body=self.block(node.body) or [ast.Pass()], orelse=self.block(node.orelse))
            return ast.copy_location(n, node)
        names = assigned(both)
        t, e = self.fresh("then"), self.fresh("else")
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        out = [self._mkbody(t, body, names), self._mkbody(e, orelse, names),
               ast.Expr(value=_call("branch", test, _name(t), _name(e), self._names_const(names),
                                    ast.Constant(value=f"{self.filename}:{line}:{t}")))]
        for o in out:
            ast.copy_location(o, node)
        return out

    def _truth(self, e):
        return _call("truth", e)

    def visit_While(self, node):
        site = ast.Constant(value=f"{self.filename}:{node.lineno}")
        if self.in_func() and self.fn is not None and not node.orelse and not _contains([ast.Expr(value=node.test)], (ast.NamedExpr, ast.Await)):
            body = decontinue(copy.deepcopy(node.body))
            if not (_contains(body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) or _loop_escape(body)):
                test = _lam(self.visit(copy.deepcopy(node.test)), [])
                names = assigned(body)
                f = self.fresh("wbody")
                fd = self._mkbody(f, [ast.Expr(value=_call("while_iter", site))] + self.block(body), names)
                call = ast.Expr(value=_call("while_", test, _name(f), self._names_const(names), site))
                for o in (fd, call):
                    ast.copy_location(o, node)
                return [fd, call]
        node.test = self._truth(self.visit(node.test))
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        node.body = [ast.Expr(value=_call("while_iter", site))] + node.body
        return node

    def visit_For(self, node):
        line = node.lineno
        body = node.body
        if self.in_func() and self.fn is not None and not node.orelse:
            body = decontinue(copy.deepcopy(body))
            if not (_contains(body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) or _loop_escape(body)):
                it = self.visit(node.iter)
                names = assigned([ast.Assign(targets=[node.target], value=ast.Constant(value=None))] + body)
                f = self.fresh("body")
                iv = self.fresh("item")
                tgt = ast.Assign(targets=[node.target], value=_name(iv))
                if isinstance(node.target, (ast.Tuple, ast.List)):
                    tgt = ast.Assign(targets=[node.target], value=_call("unpack", _name(iv), ast.Constant(value=len(node.target.elts))))
                nb = self.block(body)
                fd = self._mkbody(f, [tgt] + nb, names, (iv,))
                call = ast.Expr(value=_call("loop", it, _name(f), self._names_const(names),
                                            ast.Constant(value=f"{self.modname}.{'.'.join(s['name'] for s in self.scope)}:{line}")))
                for o in (fd, call):
                    ast.copy_location(o, node)
                return [fd, call]
        node.iter = _call("concrete_iter", self.visit(node.iter))
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        return self._stores(node, node.targets, node.value)

    def visit_AnnAssign(self, node):
        if not self.in_func():
            if node.value is not None:
                node.value = self.visit(node.value)
            return node
        if node.value is None:
            return None
        node.value = self.visit(node.value)
        return self._stores(node, [node.target], node.value)

    def _stores(self, node, targets, value):
        if all(isinstance(t, ast.Name) for t in targets):
            if isinstance(node, ast.Assign):
                return node
            return ast.copy_location(ast.Assign(targets=targets, value=value), node)
        if len(targets) == 1 and isinstance(targets[0], (ast.Attribute, ast.Subscript)):
            return [ast.copy_location(self._store(targets[0], value), node)]
        out = []
        v = self.fresh("v") if self.in_func() or True else None
        out.append(ast.Assign(targets=[_name(v, ast.Store())], value=value))
        for t in targets:
            out += self._assign_to(t, _name(v))
        for o in out:
            ast.copy_location(o, node)
        return out

    def _assign_to(self, t, value):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=value)]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            return [self._store(t, value)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                return [ast.Assign(targets=[t], value=_call("concrete_iter", value))]
            u = self.fresh("u")
            out = [ast.Assign(targets=[_name(u, ast.Store())], value=_call("unpack", value, ast.Constant(value=len(t.elts))))]
            for k, e in enumerate(t.elts):
                out += self._assign_to(e, ast.Subscript(value=_name(u), slice=ast.Constant(value=k), ctx=ast.Load()))
            return out
        return [ast.Assign(targets=[t], value=value)]

    def _store(self, t, value):
        if isinstance(t, ast.Attribute):
            return ast.Expr(value=_call("setattr", self.visit(t.value), ast.Constant(value=self.mangle(t.attr)), value))
        return ast.Expr(value=_call("setitem", self.visit(t.value), self._slice(t.slice), value))

    def _slice(self, s):
        """index expression as a value"""
        if isinstance(s, ast.Slice):
            n = ast.Constant(value=None)
            return ast.Call(func=_vc("slice"), args=[self.visit(s.lower) if s.lower else n,
                                                    self.visit(s.upper) if s.upper else n,
                                                    self.visit(s.step) if s.step else n], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        val = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            n = ast.Assign(targets=[t], value=_call("augname", _name(t.id), ast.Constant(value=op), val))
            return ast.copy_location(n, node)
        if isinstance(t, ast.Attribute):
            n = ast.Expr(value=_call("augattr", self.visit(t.value), ast.Constant(value=self.mangle(t.attr)),
                                     ast.Constant(value=op), val))
            return ast.copy_location(n, node)
        n = ast.Expr(value=_call("augitem", self.visit(t.value), self._slice(t.slice), ast.Constant(value=op), val))
        return ast.copy_location(n, node)

    def visit_Delete(self, node):
        return node

    def visit_Assert(self, node):
        node.test = self._truth(self.visit(node.test))
        if node.msg is not None:
            node.msg = self.visit(node.msg)
        return node

    # ------------------------------------------------------------------ expressions
    def _plain(self, node):
        return _contains(node, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await), stop=(ast.FunctionDef,))

    def _thunks(self):
        return bool(self.scope) and self.scope[-1]["kind"] == "func"

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            if node.value != node.value or node.value in (float("inf"), float("-inf")):
                return node
            return ast.copy_location(_call("F", ast.Constant(value=repr(node.value))), node)
        return node

    def visit_BinOp(self, node):
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        m = {ast.Div: "div", ast.Pow: "pow"}.get(type(node.op))
        if m:
            return ast.copy_location(_call(m, node.left, node.right), node)
        return node

    def visit_BoolOp(self, node):
        vals = [self.visit(v) for v in node.values]
        if self._plain(node) or not self._thunks():
            node.values = vals
            return node
        f = "and_" if isinstance(node.op, ast.And) else "or_"
        return ast.copy_location(_call(f, *[_lam(v) for v in vals]), node)

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    def visit_IfExp(self, node):
        t, a, b = self.visit(node.test), self.visit(node.body), self.visit(node.orelse)
        if self._plain(node) or not self._thunks():
            node.test, node.body, node.orelse = _call("truth", t), a, b
            return node
        return ast.copy_location(_call("ifexp", t, _lam(a), _lam(b)), node)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        if len(node.ops) == 1:
            o = node.ops[0]
            if isinstance(o, ast.In):
                return ast.copy_location(_call("contains", left, comps[0]), node)
            if isinstance(o, ast.NotIn):
                return ast.copy_location(_call("not_", _call("contains", left, comps[0])), node)
            if isinstance(o, (ast.Is, ast.IsNot)):
                node.left, node.comparators = left, comps
                return node
            names = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
            return ast.copy_location(_call("compare", ast.Constant(value=names[type(o)]), left, comps[0]), node)
        names = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge",
                 ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
        ops = ast.Tuple(elts=[ast.Constant(value=names[type(o)]) for o in node.ops], ctx=ast.Load())
        return ast.copy_location(_call("chain", ops, left, *comps), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args and not node.keywords and self.fn:
            return ast.copy_location(ast.Call(func=_name("super"), args=[_name("__class__"), _name(self.fn["first"])], keywords=[]), node)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and not any(isinstance(a, ast.Starred) for a in args):
            n = ast.Call(func=_vc("mutate"), args=[self.visit(f.value), ast.Constant(value=f.attr)] + args, keywords=kws)
            return ast.copy_location(n, node)
        node.func = self.visit(f)
        node.args = args
        node.keywords = kws
        return node

    def visit_Starred(self, node):
        node.value = _call("concrete_iter", self.visit(node.value))
        return node

    def _comp(self, node, kind):
        if len(node.generators) == 1 and not node.generators[0].is_async and not self._plain(node) and self._thunks():
            g = node.generators[0]
            t = g.target
            params = None
            if isinstance(t, ast.Name):
                params, nargs = (t.id,), 0
            elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                params, nargs = tuple(e.id for e in t.elts), len(t.elts)
            if params is not None and len(set(params)) == len(params):
                it = self.visit(g.iter)
                self.scope.append({"kind": "func", "name": "<comp>", "first": self.fn["first"] if self.fn else None,
                                   "globals": set(), "nonlocals": set(), "gen": False})
                elt = self.visit(node.elt)
                conds = [self.visit(c) for c in g.ifs]
                self.scope.pop()
                cond = ast.Constant(value=None)
                if conds:
                    c = conds[0] if len(conds) == 1 else _call("and_", *[_lam(x) for x in conds])
                    cond = _lam(c, params)
                return ast.copy_location(_call("comp", ast.Constant(value=kind), it, _lam(elt, params),
                                               ast.Constant(value=nargs), cond), node)
        for g in node.generators:
            g.iter = _call("concrete_iter", self.visit(g.iter))
            g.ifs = [_call("truth", self.visit(c)) for c in g.ifs]
        node.elt = self.visit(node.elt)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        for g in node.generators:
            g.iter = _call("concrete_iter", self.visit(g.iter))
            g.ifs = [_call("truth", self.visit(c)) for c in g.ifs]
        node.key = self.visit(node.key)
        node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        return node


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(filename, modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
