"""Rewriting of statements into the smaller language the interpreter models: match statements and generators."""
import ast


class Unmodelled(Exception):
    pass


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def conj(tests):
    tests = [t for t in tests if t is not None]
    if not tests:
        return None
    return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


def pattern(p, sub):
    """(test or None, captures [(name, expression)]) of a pattern against an expression"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(left=sub, ops=[ast.Eq()], comparators=[p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(left=sub, ops=[ast.Is()], comparators=[ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchAs):
        t, cap = (None, []) if p.pattern is None else pattern(p.pattern, sub)
        return t, cap + ([(p.name, sub)] if p.name else [])
    if isinstance(p, ast.MatchOr):
        tests = []
        for q in p.patterns:
            t, cap = pattern(q, sub)
            if cap:
                raise Unmodelled("captures in alternatives")
            if t is None:
                return None, []
            tests.append(t)
        return ast.BoolOp(op=ast.Or(), values=tests), []
    if isinstance(p, ast.MatchSequence):
        tests = [call("isinstance", sub, ast.Tuple(elts=[name("tuple"), name("list")], ctx=ast.Load()))]
        n = len(p.patterns)
        star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        tests.append(ast.Compare(left=call("len", sub), ops=[ast.GtE() if star else ast.Eq()], comparators=[ast.Constant(n - len(star))]))
        caps = []
        for i, q in enumerate(p.patterns):
            if isinstance(q, ast.MatchStar):
                if q.name:
                    stop = i - n + 1
                    sl = ast.Slice(lower=ast.Constant(i), upper=ast.Constant(stop) if stop else None)
                    caps.append((q.name, call("list", ast.Subscript(value=sub, slice=sl, ctx=ast.Load()))))
                continue
            k = i - n if star and i > star[0] else i
            t, c = pattern(q, ast.Subscript(value=sub, slice=ast.Constant(k), ctx=ast.Load()))
            tests.append(t)
            caps += c
        return conj(tests), caps
    if isinstance(p, ast.MatchMapping):
        if p.rest:
            raise Unmodelled("rest of a mapping pattern")
        tests, caps = [call("isinstance", sub, name("dict"))], []
        for k, q in zip(p.keys, p.patterns):
            tests.append(ast.Compare(left=k, ops=[ast.In()], comparators=[sub]))
            t, c = pattern(q, ast.Subscript(value=sub, slice=k, ctx=ast.Load()))
            tests.append(t)
            caps += c
        return conj(tests), caps
    if isinstance(p, ast.MatchClass):
        tests, caps = [call("isinstance", sub, p.cls)], []
        if p.patterns:
            if len(p.patterns) > 1 or not isinstance(p.cls, ast.Name) or p.cls.id not in ("str", "int", "float", "bool", "list", "tuple", "dict", "set"):
                raise Unmodelled("positional class pattern")
            t, c = pattern(p.patterns[0], sub)
            tests.append(t)
            caps += c
        for k, q in zip(p.kwd_attrs, p.kwd_patterns):
            t, c = pattern(q, ast.Attribute(value=sub, attr=k, ctx=ast.Load()))
            tests.append(t)
            caps += c
        return conj(tests), caps
    raise Unmodelled(type(p).__name__)


def yields(body):
    """yield expressions of a function body, not of nested functions"""
    out, stack = [], list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            out.append(n)
        stack.extend(ast.iter_child_nodes(n))
    return out


class Collect(ast.NodeTransformer):
    """yield statements of one function become appends to a list"""

    def __init__(self, var):
        self.var, self.seen = var, 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.seen += 1
            f = ast.Attribute(value=name(self.var), attr="append" if isinstance(v, ast.Yield) else "extend", ctx=ast.Load())
            return ast.copy_location(ast.Expr(ast.Call(func=f, args=[v.value or ast.Constant(None)], keywords=[])), n)
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(name(self.var)), n)


def imports(tree):
    """names bound by import statements: alias -> dotted name"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    return ".".join([e.id, *reversed(parts)]) if isinstance(e, ast.Name) else None


def breaks(body):
    """break statements belonging to the loop with this body"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            stack.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Desugar(ast.NodeTransformer):
    def __init__(self, names=None):
        self.k = 0
        self.names = names or {}

    def factors(self, e):
        """iterables of a product(...) or ndindex(...) call, the last varying fastest; None for anything else"""
        if not isinstance(e, ast.Call) or e.keywords or not e.args or any(isinstance(a, ast.Starred) for a in e.args):
            return None
        d = dotted(e.func)
        if d is None:
            return None
        head, _, rest = d.partition(".")
        full = self.names.get(head, head) + ("." + rest if rest else "")
        if full == "itertools.product":
            return list(e.args)
        if full == "numpy.ndindex" and (len(e.args) > 1 or isinstance(e.args[0], (ast.Tuple, ast.List))):
            dims = e.args if len(e.args) > 1 else e.args[0].elts
            if not any(isinstance(a, ast.Starred) for a in dims):
                return [call("range", a) for a in dims]
        return None

    def targets(self, t, n):
        """names for the factors and assignments to make from them"""
        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == n and not any(isinstance(x, ast.Starred) for x in t.elts):
            return list(t.elts), []
        self.k += 1
        vs = [f"__factor_{self.k}_{i}" for i in range(n)]
        tup = ast.Tuple(elts=[name(v) for v in vs], ctx=ast.Load())
        return [name(v, ast.Store()) for v in vs], [ast.Assign(targets=[t], value=tup)]

    def visit_For(self, n):
        self.generic_visit(n)
        it, target, start = n.iter, n.target, None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and 1 <= len(it.args) <= 2 and not it.keywords:
            if not (isinstance(target, ast.Tuple) and len(target.elts) == 2 and isinstance(target.elts[0], ast.Name)):
                return n
            start = it.args[1] if len(it.args) == 2 else ast.Constant(0)
            it = it.args[0]
            counter, target = n.target.elts
        fs = self.factors(it)
        if fs is None or n.orelse or breaks(n.body):
            return n
        self.k += 1
        tmps = [f"__axis_{self.k}_{i}" for i in range(len(fs))]
        ts, sets = self.targets(target, len(fs))
        pre = [ast.Assign(targets=[name(v, ast.Store())], value=f) for v, f in zip(tmps, fs)]
        body = sets + n.body
        if start is not None:
            c = f"__count_{self.k}"
            pre.append(ast.Assign(targets=[name(c, ast.Store())], value=start))
            body = [ast.Assign(targets=[name(counter.id, ast.Store())], value=name(c)),
                    ast.AugAssign(target=name(c, ast.Store()), op=ast.Add(), value=ast.Constant(1))] + body
        for t, v in reversed(list(zip(ts, tmps))):
            body = [ast.For(target=t, iter=name(v), body=body, orelse=[])]
        out = pre + body
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out

    def visit_With(self, n):
        self.generic_visit(n)
        e = n.items[0].context_expr
        if len(n.items) != 1 or n.items[0].optional_vars is not None or not isinstance(e, ast.Call) or e.keywords:
            return n
        d = dotted(e.func) or ""
        head, _, rest = d.partition(".")
        if self.names.get(head, head) + ("." + rest if rest else "") != "contextlib.suppress":
            return n
        h = ast.ExceptHandler(type=ast.Tuple(elts=list(e.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
        out = ast.copy_location(ast.Try(body=n.body, handlers=[h], orelse=[], finalbody=[]), n)
        return ast.fix_missing_locations(out)

    def comp(self, n):
        self.generic_visit(n)
        gens = []
        for g in n.generators:
            fs = self.factors(g.iter)
            if fs is None or not isinstance(g.target, (ast.Tuple, ast.List)) or len(g.target.elts) != len(fs) or g.is_async:
                gens.append(g)
                continue
            for i, (t, f) in enumerate(zip(g.target.elts, fs)):
                gens.append(ast.comprehension(target=t, iter=f, ifs=g.ifs if i == len(fs) - 1 else [], is_async=0))
        n.generators = gens
        return n

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = comp

    def visit_Match(self, n):
        self.generic_visit(n)
        self.k += 1
        tmp = f"__match_{self.k}"
        out = [ast.Assign(targets=[name(tmp, ast.Store())], value=n.subject)]
        try:
            rest = []
            for c in reversed(n.cases):
                t, caps = pattern(c.pattern, name(tmp))
                sets = [ast.Assign(targets=[name(k, ast.Store())], value=v) for k, v in caps]
                if c.guard is None:
                    rest = sets + c.body if t is None else [ast.If(test=t, body=sets + c.body, orelse=rest)]
                elif not caps:
                    rest = [ast.If(test=conj([t, c.guard]), body=c.body, orelse=rest)]
                elif t is None:
                    rest = sets + [ast.If(test=c.guard, body=c.body, orelse=rest)]
                else:
                    raise Unmodelled("guarded pattern with captures")
        except Unmodelled:
            return n
        out += rest
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        ys = yields(n.body)
        if ys and not n.decorator_list:
            self.k += 1
            var = f"__yielded_{self.k}"
            col = Collect(var)
            body = [col.visit(s) for s in __import__("copy").deepcopy(n.body)]
            if col.seen == len(ys):
                first = ast.Assign(targets=[name(var, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))
                n.body = [ast.copy_location(first, n.body[0]), *body, ast.copy_location(ast.Return(name(var)), n.body[-1])]
                ast.fix_missing_locations(n)
        return n


def desugar(tree):
    return ast.fix_missing_locations(Desugar(imports(tree)).visit(tree))
