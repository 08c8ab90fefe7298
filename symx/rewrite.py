"""Source-to-source rewriting of the code under test.

Every operation on which CPython would need concrete values (calls, method
calls, `in`, `is`, `not`, `and`/`or`, subscripts, f-strings, `%`) is redirected
to the run time; control flow is left to CPython, which executes the rewritten
module.
"""
import ast
import copy

from . import desugar

RT = "__symx_rt__"

PURE_METHODS = {
    "lower",
    "upper",
    "casefold",
    "strip",
    "lstrip",
    "rstrip",
    "replace",
    "get",
    "keys",
    "values",
    "items",
    "startswith",
    "endswith",
    "isspace",
    "isdigit",
    "isnumeric",
    "isdecimal",
    "isalpha",
    "isalnum",
    "join",
    "split",
    "find",
    "count",
    "index",
    "normalize",
    "category",
    "combining",
    "sub",
    "match",
    "search",
    "fullmatch",
    "findall",
    "group",
    "partition",
    "rpartition",
    "removesuffix",
    "removeprefix",
    "format",
    "translate",
    "copy",
    "compile",
    "escape",
}
MUTATORS = {
    "append",
    "extend",
    "insert",
    "pop",
    "remove",
    "clear",
    "update",
    "setdefault",
    "popitem",
    "add",
    "discard",
    "sort",
    "reverse",
    "write",
    "appendleft",
    "popleft",
}
PURE_BUILTINS = {
    "len",
    "str",
    "int",
    "bool",
    "any",
    "all",
    "sum",
    "isinstance",
    "min",
    "max",
    "sorted",
    "enumerate",
    "zip",
    "range",
    "list",
    "tuple",
    "set",
    "dict",
    "frozenset",
    "reversed",
    "map",
    "filter",
    "ord",
    "chr",
    "abs",
    "iter",
    "next",
    "repr",
    "ValueError",
    "TypeError",
    "KeyError",
    "float",
    "divmod",
    "pow",
    "type",
}


def _root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def fn_effects(node):
    """(locally pure, names called)"""
    params = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        params.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            params.add(x.arg)
    local = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
    fresh = local - params
    pure = True
    calls = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)):
            pure = False
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
            pure = False
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
            n.ctx, (ast.Store, ast.Del)
        ):
            if _root(n) not in fresh or isinstance(n, ast.Attribute):
                pure = False
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                calls.add(f.id)
            elif isinstance(f, ast.Attribute):
                if f.attr in MUTATORS and _root(f.value) not in fresh:
                    pure = False
                if (
                    isinstance(f.value, ast.Name)
                    and f.value.id in ("random", "time", "os", "sys", "threading")
                ):
                    pure = False
            else:
                pure = False
    # aliases of parameters/globals may be mutated through a local name
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    for c in ast.walk(node):
                        if (
                            isinstance(c, ast.Call)
                            and isinstance(c.func, ast.Attribute)
                            and c.func.attr in MUTATORS
                            and _root(c.func.value) == t.id
                        ):
                            pure = False
                        if (
                            isinstance(c, ast.Subscript)
                            and isinstance(c.ctx, (ast.Store, ast.Del))
                            and _root(c) == t.id
                        ):
                            pure = False
    for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            pure = False
    return pure, calls


def _is_cache(d):
    """functools.lru_cache or functools.cache as a decorator."""
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return isinstance(d.value, ast.Name) and d.value.id == "functools" and d.attr in ("lru_cache", "cache")
    return isinstance(d, ast.Name) and d.id in ("lru_cache", "cache")


def purity(tree):
    """Names of the module-level functions without side effects."""
    eff = {}
    imported = set()
    classes = set()
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            eff[n.name] = fn_effects(n)
            if any(not _is_cache(d) for d in n.decorator_list):
                eff[n.name] = (False, set())
        elif isinstance(n, ast.ClassDef):
            classes.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                imported.add(al.asname or al.name)
    pure = {n for n, (p, _) in eff.items() if p}
    changed = True
    while changed:
        changed = False
        for n in list(pure):
            for c in eff[n][1]:
                if c in pure or c in PURE_BUILTINS:
                    continue
                if c in ("import_module",):
                    pure.discard(n)
                    changed = True
                    break
                pure.discard(n)
                changed = True
                break
    return pure


def memoisable(tree, pure):
    """Pure functions whose result depends on nothing but the arguments."""
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    imported = set()
    consts = {}
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                imported.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    ok = isinstance(n.value, ast.Constant)
                    consts[t.id] = ok and t.id not in consts
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            for g in n.names:
                consts[g] = False
    out = set(pure)
    changed = True
    while changed:
        changed = False
        for n in list(out):
            node = funcs[n]
            local = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
            for c in ast.walk(node):
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    local.add(c.id)
            for c in ast.walk(node):
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                    i = c.id
                    if (
                        i in local
                        or i in out
                        or i in imported
                        and i in ("re", "unicodedata", "string", "math")
                        or i in PURE_BUILTINS
                        or consts.get(i)
                    ):
                        continue
                    out.discard(n)
                    changed = True
                    break
                if isinstance(c, ast.Lambda):
                    out.discard(n)
                    changed = True
                    break
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, pure, memo=(), ticks=False):
        self.ticks = ticks
        self.memo = memo
        self.modname = modname
        self.pure = pure
        self.depth = 0
        self.cls = []

    def rt(self, name, *args):
        return ast.Call(
            ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load()), list(args), []
        )

    # -- definitions
    def visit_FunctionDef(self, node):
        top = self.depth == 0
        self.depth += 1
        orig_line = node.lineno
        if node.decorator_list:
            orig_line = min(orig_line, *(d.lineno for d in node.decorator_list))
        body = [self.visit(s) for s in node.body]
        node.body = _flat(body)
        if self.ticks and (self.cls or not top or node.name not in self.pure):
            node.body = self.ticked(node.body)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.depth -= 1
        if top:
            qual = ".".join(self.cls + [node.name])
            deco = ast.Call(
                ast.Attribute(ast.Name(RT, ast.Load()), "fn", ast.Load()),
                [
                    ast.Constant(self.modname),
                    ast.Constant(qual),
                    ast.Constant(orig_line),
                    ast.Constant(
                        0
                        if self.cls or node.name not in self.pure
                        else (2 if node.name in self.memo else 1)
                    ),
                    ast.Call(ast.Name("globals", ast.Load()), [], []),
                ],
                [],
            )
            node.decorator_list.append(deco)
        return node

    def ticked(self, body):
        """A point at which another call may run before every statement."""
        out = []
        for s in body:
            first = getattr(s, "lineno", 0)
            last = getattr(s, "end_lineno", first) or first
            if getattr(s, "body", None) and isinstance(s.body, list):
                last = max(first, getattr(s.body[0], "lineno", first + 1) - 1)
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for f in ("body", "orelse", "finalbody"):
                    if getattr(s, f, None):
                        setattr(s, f, self.ticked(getattr(s, f)))
                for x in getattr(s, "handlers", None) or getattr(s, "cases", None) or []:
                    x.body = self.ticked(x.body)
                if not isinstance(s, (ast.Nonlocal, ast.Global)):
                    out.append(ast.Expr(self.rt("tick", ast.Constant(first), ast.Constant(last))))
            out.append(s)
        return out

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        d, self.depth = self.depth, 0 if self.depth == 0 else self.depth
        node.bases = [self.visit(b) for b in node.bases]
        node.body = _flat([self.visit(s) for s in node.body])
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.depth = d
        self.cls.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        whole = copy.deepcopy(node) if isinstance(f, ast.Attribute) and f.attr == "join" else None
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "exec", "eval"):
            return ast.Call(f, args, kws)
        if isinstance(f, ast.Attribute):
            if f.attr == "join" and not kws and len(node.args) == 1 and not self.in_class_body():
                j = self.filter_join(whole)
                if j is not None:
                    return j
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return ast.Call(self.visit(f), args, kws)
            return ast.Call(
                ast.Attribute(ast.Name(RT, ast.Load()), "callm", ast.Load()),
                [self.visit(f.value), ast.Constant(f.attr)] + args,
                kws,
            )
        return ast.Call(
            ast.Attribute(ast.Name(RT, ast.Load()), "call", ast.Load()),
            [self.visit(f)] + args,
            kws,
        )

    def filter_join(self, node):
        """"".join(e for c in s if p): character-wise, so it may be applied to
        the parts of a string one by one."""
        sep, g = node.func.value, node.args[0]
        if not (isinstance(sep, ast.Constant) and sep.value == ""):
            return None
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1:
            return None
        c = g.generators[0]
        if c.is_async or not isinstance(c.target, ast.Name):
            return None
        if not self.safe(g.elt) or not all(self.safe(i) for i in c.ifs):
            return None
        it = self.visit(c.iter)
        c.iter = ast.Name("__symx_it__", ast.Load())
        self.generic_visit(g)
        a = ast.arguments([], [ast.arg("__symx_it__")], None, [], [], None, [])
        body = ast.Call(
            ast.Attribute(ast.Name(RT, ast.Load()), "callm", ast.Load()),
            [sep, ast.Constant("join"), g],
            [],
        )
        return self.rt("join_gen", ast.Lambda(a, body), it)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.rt("not_", node.operand)
        return node

    def safe(self, n):
        """May be evaluated speculatively (no side effects)."""
        for c in ast.walk(n):
            if isinstance(
                c,
                (
                    ast.Name,
                    ast.Attribute,
                    ast.Constant,
                    ast.Compare,
                    ast.BoolOp,
                    ast.UnaryOp,
                    ast.Load,
                    ast.cmpop,
                    ast.unaryop,
                    ast.boolop,
                    ast.Subscript,
                    ast.Slice,
                    ast.Tuple,
                    ast.List,
                    ast.BinOp,
                    ast.operator,
                ),
            ):
                continue
            if isinstance(c, ast.Call):
                if c.keywords:
                    return False
                if isinstance(c.func, ast.Name) and (
                    c.func.id in self.pure or c.func.id in ("len", "bool", "isinstance")
                ):
                    continue
                if isinstance(c.func, ast.Attribute) and c.func.attr in PURE_METHODS:
                    continue
            return False
        return True

    def visit_BoolOp(self, node):
        name = "bor" if isinstance(node.op, ast.Or) else "band"
        vals = node.values
        safes = [self.safe(v) for v in vals]
        has_walrus = any(isinstance(c, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for v in vals for c in ast.walk(v))
        nv = [self.visit(v) for v in vals]
        if has_walrus or self.in_class_body():
            return ast.BoolOp(node.op, nv)
        out = nv[0]
        for v, s in zip(nv[1:], safes[1:]):
            lam = ast.Lambda(
                ast.arguments([], [], None, [], [], None, []), v
            )
            out = self.rt(name, ast.Constant(s), out, lam)
        return out

    def in_class_body(self):
        return bool(self.cls) and self.depth == 0

    def visit_Compare(self, node):
        if len(node.ops) > 1:
            # a < b < c  ->  a < b and b < c when b is simple
            parts = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left, [op], [right]))
                left = right
            if all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) for x in node.comparators[:-1]):
                return self.visit(ast.BoolOp(ast.And(), parts))
            self.generic_visit(node)
            return node
        op = node.ops[0]
        l = self.visit(node.left)
        r = self.visit(node.comparators[0])
        if isinstance(op, ast.In):
            return self.rt("in_", l, r)
        if isinstance(op, ast.NotIn):
            return self.rt("not_in_", l, r)
        if isinstance(op, ast.Is):
            return self.rt("is_", l, r)
        if isinstance(op, ast.IsNot):
            return self.rt("is_not", l, r)
        if isinstance(op, ast.Eq):
            return self.rt("eq", l, r)
        if isinstance(op, ast.NotEq):
            return self.rt("ne", l, r)
        return ast.Compare(l, [op], [r])

    def visit_Dict(self, node):
        self.generic_visit(node)
        node.keys = [k if k is None or isinstance(k, ast.Constant) else self.rt("key", k) for k in node.keys]
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not isinstance(node.key, ast.Constant):
            node.key = self.rt("key", node.key)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        node.elts = [e if isinstance(e, (ast.Constant, ast.Starred)) else self.rt("key", e) for e in node.elts]
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        node.elt = self.rt("key", node.elt)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                n = ast.Constant(None)
                sl = ast.Call(
                    ast.Attribute(ast.Name(RT, ast.Load()), "slice_", ast.Load()),
                    [sl.lower or n, sl.upper or n, sl.step or n],
                    [],
                )
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return self.rt("getitem", node.value, sl)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.rt("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("")
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), spec],
                        ast.Load(),
                    )
                )
        return self.rt("fstring", *parts)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.Expr(
                self.rt("setattr_", t.value, ast.Constant(t.attr), node.value)
            )
        return node

    def visit_ExceptHandler(self, node):
        # the engine steers paths with BaseExceptions
        self.generic_visit(node)
        if node.type is None or (
            isinstance(node.type, ast.Name) and node.type.id == "BaseException"
        ):
            node.type = ast.Name("Exception", ast.Load())
        return node

    def visit_match_case(self, node):
        # patterns stay as they are
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = _flat([self.visit(s) for s in node.body])
        return node


def _flat(xs):
    out = []
    for x in xs:
        if x is None:
            continue
        if isinstance(x, list):
            out.extend(x)
        else:
            out.append(x)
    return out


def rewrite(src, filename, modname, ticks=False):
    tree = desugar.desugar(ast.parse(src, filename))
    pure = purity(tree)
    tree = Rewriter(modname, pure, memoisable(tree, pure), ticks).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
