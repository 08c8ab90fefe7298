"""Source-to-source step before the rewriting: loops and calls that build a
string character by character become "".join(... for ... in ... if ...), which
the engine applies to the parts of a symbolic string one by one.  The meaning
stays the same; where a pattern does not match the code is left alone."""
import ast
import copy


def _join(elt, target, it, ifs):
    g = ast.comprehension(target, it, ifs, 0)
    return ast.Call(
        ast.Attribute(ast.Constant(""), "join", ast.Load()),
        [ast.GeneratorExp(elt, [g])],
        [],
    )


def _is_join(n):
    return (
        isinstance(n, ast.Call)
        and isinstance(n.func, ast.Attribute)
        and n.func.attr == "join"
        and isinstance(n.func.value, ast.Constant)
        and n.func.value.value == ""
        and len(n.args) == 1
        and not n.keywords
    )


def _names(n):
    return [c for c in ast.walk(n) if isinstance(c, ast.Name)]


def _apply(f, arg):
    """f(arg) for a name or a lambda of one argument."""
    if isinstance(f, (ast.Name, ast.Attribute)):
        return ast.Call(copy.deepcopy(f), [arg], [])
    if isinstance(f, ast.Lambda):
        a = f.args
        if len(a.args) == 1 and not (a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg or a.defaults):
            old = a.args[0].arg
            if any(isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) for c in ast.walk(f.body)):
                return None

            class Sub(ast.NodeTransformer):
                def visit_Name(self, n):
                    return copy.deepcopy(arg) if n.id == old else n

            return Sub().visit(copy.deepcopy(f.body))
    return None


class Joins(ast.NodeTransformer):
    """"".join(filter(f, s)) and "".join(map(f, s))"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if not _is_join(node):
            return node
        c = node.args[0]
        if not (
            isinstance(c, ast.Call)
            and isinstance(c.func, ast.Name)
            and c.func.id in ("filter", "map")
            and len(c.args) == 2
            and not c.keywords
        ):
            return node
        v = ast.Name("__symx_c__", ast.Load())
        e = _apply(c.args[0], v)
        if e is None:
            return node
        t = ast.Name("__symx_c__", ast.Store())
        if c.func.id == "filter":
            return _join(v, t, c.args[1], [e])
        return _join(e, t, c.args[1], [])


def _loop(node):
    """for T in IT: [if C: continue]... (ACC += E | if C: ACC += E)
    -> (accumulator, "add"/"append", element, conditions)"""
    if node.orelse or not isinstance(node.target, ast.Name):
        return None
    ifs = []
    body = list(node.body)
    while body and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        t = body.pop(0).test
        ifs.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t))
    if len(body) != 1:
        return None
    s = body[0]
    while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
        ifs.append(s.test)
        s = s.body[0]
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
        acc, kind, e = s.target.id, "add", s.value
    elif (
        isinstance(s, ast.Assign)
        and len(s.targets) == 1
        and isinstance(s.targets[0], ast.Name)
        and isinstance(s.value, ast.BinOp)
        and isinstance(s.value.op, ast.Add)
        and isinstance(s.value.left, ast.Name)
        and s.value.left.id == s.targets[0].id
    ):
        acc, kind, e = s.targets[0].id, "add", s.value.right
    elif (
        isinstance(s, ast.Expr)
        and isinstance(s.value, ast.Call)
        and isinstance(s.value.func, ast.Attribute)
        and s.value.func.attr == "append"
        and isinstance(s.value.func.value, ast.Name)
        and len(s.value.args) == 1
        and not s.value.keywords
    ):
        acc, kind, e = s.value.func.value.id, "append", s.value.args[0]
    else:
        return None
    for x in ifs + [e, node.iter]:
        for c in ast.walk(x):
            if isinstance(c, ast.Name) and c.id == acc:
                return None
            if isinstance(c, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return None
    return acc, kind, e, ifs


class Loops(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        inner = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) and n is not fn]
        self.generic_visit(fn)
        if inner:
            return fn
        for n in ast.walk(fn):
            for field in ("body", "orelse", "finalbody"):
                b = getattr(n, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    for i, s in enumerate(b):
                        if isinstance(s, ast.For):
                            r = self.loop(fn, s)
                            if r is not None:
                                b[i] = r
                    self.inline(fn, b)
        return fn

    def loop(self, fn, node):
        m = _loop(node)
        if m is None:
            return None
        acc, kind, elt, ifs = m
        inside = set(map(id, ast.walk(node)))
        t = node.target.id
        if any(n.id == t and id(n) not in inside for n in _names(fn)):
            return None
        # how the accumulator begins and where it is used
        init = None
        uses = []
        joins = {id(j.args[0]) for j in ast.walk(fn) if _is_join(j)}
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == acc and id(s) not in inside:
                if init is not None:
                    return None
                init = s
        if init is None:
            return None
        for n in _names(fn):
            if n.id == acc and id(n) not in inside and n is not init.targets[0]:
                uses.append(n)
        if any(isinstance(n.ctx, ast.Store) for n in uses):
            return None
        j = _join(elt, node.target, node.iter, ifs)
        if kind == "add":
            if not (isinstance(init.value, ast.Constant) and type(init.value.value) is str):
                return None
            out = ast.AugAssign(ast.Name(acc, ast.Store()), ast.Add(), j)
        else:
            if not (isinstance(init.value, ast.List) and not init.value.elts):
                return None
            if not uses or not all(id(n) in joins for n in uses):
                return None
            out = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [j], []))
        return ast.fix_missing_locations(ast.copy_location(out, node))

    def inline(self, fn, body):
        """x = [... for ...]; ... "".join(x) ... in the next statement"""
        i = 0
        while i + 1 < len(body):
            s, n = body[i], body[i + 1]
            if (
                isinstance(s, ast.Assign)
                and len(s.targets) == 1
                and isinstance(s.targets[0], ast.Name)
                and isinstance(s.value, (ast.ListComp, ast.GeneratorExp))
                and isinstance(n, (ast.Return, ast.Assign, ast.Expr))
            ):
                x = s.targets[0].id
                us = [c for c in _names(fn) if c.id == x and c is not s.targets[0]]
                js = [j for j in ast.walk(n) if _is_join(j) and isinstance(j.args[0], ast.Name) and j.args[0].id == x]
                if len(us) == 1 and len(js) == 1 and js[0].args[0] is us[0]:
                    js[0].args[0] = s.value
                    del body[i]
                    continue
            i += 1


def desugar(tree):
    tree = Loops().visit(tree)
    tree = Joins().visit(tree)
    return ast.fix_missing_locations(tree)
