"""Abstract semantics of the library calls the analysed package uses: Python builtins, dispatch, containers."""
import ast
import inspect
from .poly import *
from . import poly as pl
from . import values as V
from .values import *

PRIMS = {}         # name -> python function(I, *args, **kwargs)
METHODS = {}       # (kind, name) -> python function(I, obj, *args, **kwargs)


def prim(*names):
    def d(fn):
        for n in names:
            PRIMS[n] = fn
        return fn
    return d


def method(kind, *names):
    def d(fn):
        for n in names:
            METHODS[kind, n] = fn
        return fn
    return d


class SymIter:
    def __init__(self, n, el):
        self.n, self.el = n, el


class Sym:
    """an unknown but fixed non-numeric object (string, path, handle)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<sym {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(("Sym", self.name))


class Acc:
    """frame accessor: iloc / loc / at / iat / array .at"""

    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class AtRef:
    def __init__(self, arr, key):
        self.arr, self.key = arr, key


class Lib:
    """result of a module lookup"""


def bind_call(fn, I, args, kwargs, what):
    try:
        inspect.signature(fn).bind(I, *args, **kwargs)
    except TypeError as e:
        raise Unsupported(f"{what}: {e}")
    return fn(I, *args, **kwargs)


# ------------------------------------------------------------------ modules
ALIAS = {"numpy": "np", "jax.numpy": "jnp", "pandas": "pd", "numpy.random": "np.random", "jax.lax": "jax.lax",
         "scipy.special": "scipy.special"}
SUBMODULES = {"numpy.random", "numpy.linalg", "numpy.polynomial", "numpy.polynomial.hermite", "jax.numpy", "jax.lax", "jax.nn",
              "jax.tree_util", "jax.tree", "jax.random", "scipy.special", "jax.config", "jax.debug", "jax.scipy", "jax.scipy.special", "os.path",
              "numpy.testing", "numpy.lib", "numpy.lib.stride_tricks"}


def dotted(mod, name):
    return f"{ALIAS.get(mod, mod)}.{name}"


CONSTS = {"pi": lambda: leaf("pi"), "e": lambda: pl.exp(ONE), "nan": lambda: leaf("nan"), "NaN": lambda: leaf("nan"), "inf": lambda: leaf("inf")}
declare("pi", pos=True, lb=F(3), ub=F(16, 5))


def module(name):
    return Mod(name)


def from_import(mod, name):
    if mod == "jax" and name == "numpy":
        return Mod("jax.numpy")
    if f"{mod}.{name}" in SUBMODULES:
        return Mod(f"{mod}.{name}")
    return mod_attr(mod, name)


def mod_attr(mod, name):
    if mod in ("numpy", "jax.numpy", "math"):
        if name in CONSTS:
            return scalar(CONSTS[name](), "float")
        if name == "newaxis":
            return None
    if f"{mod}.{name}" in SUBMODULES:
        return Mod(f"{mod}.{name}")
    return Prim(dotted(mod, name))


EXCS = ["Exception", "ValueError", "KeyError", "TypeError", "IndexError", "NotImplementedError", "AttributeError", "AssertionError",
        "RuntimeError", "ZeroDivisionError", "FileNotFoundError", "ImportError", "StopIteration", "LookupError", "OSError", "ArithmeticError",
        "Warning", "UserWarning", "DeprecationWarning", "BaseException", "NameError", "FloatingPointError", "OverflowError"]


def builtins():
    names = ["len", "int", "float", "bool", "str", "abs", "min", "max", "sum", "range", "zip", "enumerate", "list", "tuple", "dict", "set",
             "frozenset", "sorted", "isinstance", "getattr", "hasattr", "setattr", "print", "any", "all", "map", "filter", "reversed", "round",
             "type", "object", "callable", "id", "iter", "next", "open", "divmod", "pow", "slice", "vars", "repr", "issubclass", "super",
             "staticmethod", "classmethod", "property", "complex", "bytes", "hash", "globals", "locals"]
    d = {n: Prim(n) for n in names + EXCS}
    d["True"], d["False"], d["None"] = True, False, None
    d["__name__"] = "soepy"
    d["__file__"] = Sym("__file__")
    return d


def decorate(I, dec, f):
    n = dec.name if isinstance(dec, Prim) else None
    if n in ("functools.lru_cache", "functools.cache") and isinstance(f, Func):
        return memoised(I, f)
    if n in ("staticmethod", "classmethod", "property", "functools.cached_property"):
        return ClassMember(n, f)
    if n in ("jax.named_call", "functools.wraps"):
        return f
    r = I.call(dec, [f], {})
    if isinstance(r, Opq):
        I.unmodelled.append((f"decorator on {getattr(f, 'name', f)}", I.where()))
        return f
    return r


def memoised(I, f):
    """functools.lru_cache: the same object is returned for equal arguments, within and across calls"""
    store = PDict(origin=f"memo:{f.name}")
    I.stores.append(store)

    def call(I, args, kw):
        key = (tuple(I.hashable(a, True) for a in args), tuple((k, I.hashable(a, True)) for k, a in sorted(kw.items())))
        if key in store.d:
            return store.d[key]
        r = I.call(f, args, kw)
        mark_owned(r, f"memo:{f.name}")
        d = dict(store.d)
        d[key] = r
        store.cell.set(d)
        I.event("memo", func=f.name)
        return r
    g = PyFn(f.name, call)
    return g


def mark_owned(v, origin):
    if isinstance(v, (PList, PDict)):
        v.cell.origin = origin
        for x in v.items if isinstance(v, PList) else v.d.values():
            mark_owned(x, origin)
    elif isinstance(v, Arr) and v.shape and v.lib != "jax":
        v.buf.origin = origin
    elif isinstance(v, tuple):
        for x in v:
            mark_owned(x, origin)
    elif isinstance(v, NT):
        for x in v.fields.values():
            mark_owned(x, origin)
    elif isinstance(v, DF):
        v.cell.origin = origin


def mark_default(v, origin):
    if isinstance(v, (PList, PDict)):
        v.cell.origin = origin
    elif isinstance(v, Arr) and v.shape:
        v.buf.origin = origin


# ------------------------------------------------------------------ conversions
def boolval(p):
    if p is ONE:
        return True
    if p is ZERO:
        return False
    return scalar(p, "bool")


def list_len(v):
    return psum_items(v.items)


def psum_items(items):
    n = ZERO
    for x in items:
        if isinstance(x, Seg):
            if x.k is None:
                n = n + pmul(x.n, psum_items(x.items))
            else:
                inner = psum_items(x.items)
                n = n + pl.sum_bound(inner, x.k, x.n)
        else:
            n = n + 1
    return n


def seg_elem(I, items, kind="item"):
    """list with segments -> (length, element function index -> value); needs lengths free of the segment index"""
    if len(items) == 1 and isinstance(items[0], Seg) and items[0].k is not None:
        sg = items[0]
        inner = sg.items
        kid = single_atom(sg.k).id
        if len(inner) == 1 and not isinstance(inner[0], Seg):
            return sg.n, lambda j: I.subst_value(inner[0], {kid: j})
    raise Unsupported("irregular loop-built list")


def to_arr(I, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Series):
        return v.arr
    if isinstance(v, (bool, int, float, F, P)):
        return arr_of(v)
    if isinstance(v, LabelSeries):
        ps = list(v.rows.values())
        return Arr((len(ps),), lambda i: stack_select(i, [lambda p=p: p for p in ps]), "float", "np")
    if isinstance(v, LabelDF):
        ps = list(v.rows.values())
        return Arr((len(ps), 1), lambda i, j: stack_select(i, [lambda p=p: p for p in ps]), "float", "np")
    if isinstance(v, DF):
        cols = list(v.cols.values())
        fs = [c.fn() for c in cols]
        return Arr((v.n, len(cols)), lambda r, c: stack_select(c, [lambda f=f: f(r) for f in fs]), promote(*[c.dt for c in cols]) if cols else "float", "np")
    if isinstance(v, Rng):
        n = I.rng_len(v)
        s, st = v.start, v.step
        return Arr((n,), lambda i: s + st * i, "int", "py")
    if isinstance(v, NT):
        v = tuple(v.fields.values())
    if isinstance(v, PSet):
        v = tuple(v.items)
    if isinstance(v, SymIter):
        els = v.el
        z = to_arr(I, els(ZERO))
        return Arr((v.n,) + z.shape, lambda k, *i: to_arr(I, els(k)).at(*i), z.dt, "np")
    if isinstance(v, (tuple, PList)):
        items = v if isinstance(v, tuple) else v.items
        if not any(isinstance(x, Seg) for x in items):
            arrs = [to_arr(I, x) for x in items]
            if not arrs:
                return Arr((0,), lambda i: ZERO, "float", "np")
            return stack_arrs(arrs, 0)
        return concat_items(I, items, True)
    if v is None:
        raise Unsupported("None as array")
    if isinstance(v, Opq):
        raise Unsupported("opaque: " + v.why)
    if isinstance(v, Phi):
        a, b = to_arr(I, v.a), to_arr(I, v.b)
        r = I.join(v.c, a, b)
        if isinstance(r, Arr):
            return r
    raise Unsupported(f"{type(v).__name__} as array")


def stack_arrs(arrs, axis=0, lib=None):
    shape = broadcast_shapes(*[a.shape for a in arrs])
    if any(len(a.shape) != len(shape) for a in arrs):
        raise AbsRaise("ValueError", "ragged sequence", V.CTX.where())
    fs = [a.fn() for a in arrs]
    nd = len(shape) + 1
    if axis < 0:
        axis += nd
    dt = promote(*[a.dt for a in arrs])
    if lib is None:
        lib = "jax" if any(a.lib == "jax" for a in arrs) else "np"

    def f(*idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        return stack_select(k, [lambda g=g: g(*rest) for g in fs])
    return Arr(shape[:axis] + (C(len(arrs)),) + shape[axis:], f, dt, lib)


def concat_arrs(parts, axis=0, lib=None):
    """parts: arrays; concatenation along axis"""
    nd = parts[0].ndim
    if axis < 0:
        axis += nd
    parts = [p for p in parts if p.shape[axis] is not ZERO] or parts[:1]
    if len(parts) == 1:
        return parts[0].copy()
    shape = list(parts[0].shape)
    for p in parts[1:]:
        for k in range(nd):
            if k != axis and not dim_eq(shape[k], p.shape[k]):
                if shape[k].is_const() and p.shape[k].is_const():
                    raise AbsRaise("ValueError", "concatenate: dimensions differ", V.CTX.where())
                V.CTX.assume(f"dimension {shape[k]} == {p.shape[k]}")
    fs = [p.fn() for p in parts]
    offs = [ZERO]
    for p in parts:
        offs.append(offs[-1] + p.shape[axis])
    shape[axis] = offs[-1]
    dt = promote(*[p.dt for p in parts])
    if lib is None:
        lib = "jax" if any(a.lib == "jax" for a in parts) else "np"

    def f(*idx):
        k = idx[axis]
        acc = None
        rest_guard = ONE
        for q in range(len(parts)):
            inr = ONE if q == len(parts) - 1 else ge(offs[q + 1] - 1 - k)
            if inr is ZERO:
                continue
            i2 = list(idx)
            i2[axis] = k - offs[q]
            g = pmul(rest_guard, inr)
            imp = pl.implied(g) if g is not ONE else None
            v = fs[q](*i2)
            if imp:
                v = subst(v, imp)
            term = pmul(g, v)
            acc = term if acc is None else acc + term
            rest_guard = pmul(rest_guard, ONE - inr)
            if rest_guard is ZERO:
                break
        return acc if acc is not None else ZERO
    return Arr(shape, f, dt, lib)


def concat_items(I, items, stack):
    """concatenate (or stack) a list of arrays built by loops, along axis 0"""
    def item_arr(x):
        a = to_arr(I, x)
        if stack:
            f = a.fn()
            return Arr((ONE,) + a.shape, lambda k, *i: f(*i), a.dt, a.lib)
        return a

    def build(items):
        groups = []
        for x in items:
            if isinstance(x, Seg):
                if x.k is None:
                    raise Unsupported("conditionally appended item")
                inner = build(x.items)
                kid = single_atom(x.k).id
                L = inner.shape[0]
                if kid in p_deep(L):
                    raise Unsupported("segment length depends on the loop index")
                f = inner.fn()

                def g(r, *i, f=f, L=L, kid=kid):
                    if L is ONE:
                        q, m = r, ZERO
                    else:
                        q, m = divmod_p(r, L)
                    return I._subst_at(f, {kid: q}, (m,) + i)
                groups.append(Arr((pmul(x.n, L),) + inner.shape[1:], g, inner.dt, "np"))
            else:
                groups.append(item_arr(x))
        if len(groups) == 1:
            return groups[0]
        L = groups[0].shape[0]
        if all(dim_eq(g.shape[0], L) for g in groups) and L is not ONE:
            fs = [g.fn() for g in groups]

            def h(r, *i):
                q, m = divmod_p(r, L)
                return stack_select(q, [lambda f=f: f(m, *i) for f in fs])
            return Arr((pmul(L, C(len(groups))),) + groups[0].shape[1:], h, promote(*[g.dt for g in groups]), "np")
        return concat_arrs(groups, 0)
    return build(items)


# ------------------------------------------------------------------ operators
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
       ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul", ast.LShift: "shl", ast.RShift: "shr"}


def unwrap(I, v):
    """numeric operand: (Arr, rebuild)"""
    if isinstance(v, Series):
        return v.arr, lambda a: Series(a, v.index, v.name)
    if isinstance(v, DF):
        return None, None
    if isinstance(v, (PList, tuple)):
        return to_arr(I, v), None
    if isinstance(v, LabelSeries):
        return to_arr(I, v), None
    return arr_of(v), None


def binop(I, op, a, b, inplace=False):
    o = OPS[type(op)] if not isinstance(op, str) else op
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Phi):
            if sw:
                return I.join(x.c, binop(I, op, a, x.a), binop(I, op, a, x.b))
            return I.join(x.c, binop(I, op, x.a, b), binop(I, op, x.b, b))
    if isinstance(a, (Inst, NT)) or isinstance(b, (Inst, NT)):
        r = special_binop(I, o, a, b, inplace)
        if r is not None:
            return r
        if isinstance(a, Inst) or isinstance(b, Inst):
            return Opq("arithmetic of objects")
    if isinstance(a, Opq) or isinstance(b, Opq):
        return a if isinstance(a, Opq) else b
    if isinstance(a, (str, Sym)) or isinstance(b, (str, Sym)):
        if isinstance(a, str) and isinstance(b, str) and o == "add":
            return a + b
        if isinstance(a, str) and o == "mod":
            return Sym("formatted")
        if o == "mul":
            n = const_int(b if isinstance(a, str) else a)
            return (a if isinstance(a, str) else b) * n
        return Sym("string")
    if isinstance(a, PList) and isinstance(b, PList) and o == "add":
        return PList(a.items + b.items)
    if isinstance(a, tuple) and isinstance(b, tuple) and o == "add":
        return a + b
    if o == "mul" and (isinstance(a, (PList, tuple)) and is_num(b) and not arr_of(b).shape or isinstance(b, (PList, tuple)) and is_num(a) and not arr_of(a).shape):
        seq, n = (a, b) if isinstance(a, (PList, tuple)) else (b, a)
        items = seq if isinstance(seq, tuple) else seq.items
        c = const_int(n)
        if c is not None:
            return tuple(items) * c if isinstance(seq, tuple) else PList(tuple(items) * c)
        if len(items) == 1 and is_num(items[0]):
            p = arr_of(items[0]).p()
            return Arr((arr_of(n).p(),), lambda i: p, arr_of(items[0]).dt, "list")
        raise Unsupported("list repetition")
    if isinstance(a, PDict) and isinstance(b, PDict) and o == "or":
        return PDict({**a.d, **b.d})
    if isinstance(a, Arr) and a.lib == "list" and isinstance(b, Arr) and b.lib == "list" and o == "add":
        r = concat_arrs([a, b], 0)
        r.lib = "list"
        return r
    if isinstance(a, PList) and isinstance(b, Arr) and b.lib == "list" and o == "add":
        r = concat_arrs([to_arr(I, a), b], 0)
        r.lib = "list"
        return r
    if isinstance(a, PSet) or isinstance(b, PSet):
        return set_op(I, o, a, b)
    if isinstance(a, DF) or isinstance(b, DF):
        d = a if isinstance(a, DF) else b
        oth = b if isinstance(a, DF) else a
        if isinstance(oth, DF):
            return Opq("frame arithmetic")
        return d.with_cols({c: to_arr(I, binop(I, op, x, oth) if d is a else binop(I, op, oth, x)) for c, x in d.cols.items()})
    x, ra = unwrap(I, a)
    y, rb = unwrap(I, b)
    r = arr_binop(I, o, x, y)
    if ra:
        return ra(r)
    if rb:
        return rb(r)
    return r


def arr_binop(I, o, x, y):
    if o == "matmul":
        return PRIMS["np.matmul"](I, x, y)
    both_bool = x.dt == "bool" and y.dt == "bool"
    py = x.lib in ("py", "list") and y.lib in ("py", "list")
    dt = promote(x.dt, y.dt)
    for u, v in ((x, y), (y, x)):
        # Python scalars do not widen a narrow array
        if u.dt in V.NARROW and v.lib == "py" and not v.shape and (v.dt == "int" or v.dt == "float" and u.dt == "float32"):
            dt = u.dt
    if o == "add":
        if both_bool and not py:
            return ew(b_or, x, y, dt="bool")
        r = ew(lambda p, q: p + q, x, y, dt="int" if dt == "bool" else dt)
    elif o == "sub":
        if both_bool and not py:
            raise AbsRaise("TypeError", "numpy boolean subtract", I.where())
        r = ew(lambda p, q: p - q, x, y, dt="int" if dt == "bool" else dt)
    elif o == "mul":
        r = ew(pmul, x, y, dt="bool" if both_bool and not py else ("int" if dt == "bool" else dt))
    elif o == "div":
        if py and y.p() is ZERO:
            raise AbsRaise("ZeroDivisionError", "division by zero", I.where())
        return ew(lambda p, q: p / q, x, y, dt="float32" if dt == "float32" else "float")
    elif o == "floordiv":
        return ew(lambda p, q: divmod_p(p, q)[0] if p.isint() and q.isint() else floor(p / q), x, y, dt="int" if dt in ("bool", "int") else dt)
    elif o == "mod":
        return ew(lambda p, q: divmod_p(p, q)[1] if p.isint() and q.isint() else p - pmul(q, floor(p / q)), x, y, dt="int" if dt in ("bool", "int") else dt)
    elif o == "pow":
        r = ew(lambda p, q: ppow(p, q), x, y, dt="int" if dt == "bool" else dt)
    elif o in ("and", "or", "xor"):
        if both_bool:
            fn = {"and": pmul, "or": b_or, "xor": lambda p, q: p + q - pscale(pmul(p, q), F(2))}[o]
            return ew(fn, x, y, dt="bool")
        cx, cy = const_int(x), const_int(y)
        if cx is not None and cy is not None:
            return scalar(C({"and": cx & cy, "or": cx | cy, "xor": cx ^ cy}[o]), "int")
        if "bool" in (x.dt, y.dt) or all(q.isint() for q in ()):
            # bool with a 0/1 integer
            fn = {"and": pmul, "or": b_or, "xor": lambda p, q: p + q - pscale(pmul(p, q), F(2))}[o]
            return ew(fn, x, y, dt="int")
        raise Unsupported("bitwise operation on integers")
    else:
        raise Unsupported("operator " + o)
    if dt in V.NARROW and dt != "float32" and r.dt == dt:
        f = r.fn()
        w = {"int8": wrap8, "int16": wrap16}.get(dt) or (lambda p: wrapu(p, V.UNSIGNED[dt]))
        r = Arr(r.shape, lambda *i: w(f(*i)), dt, r.lib)
    return r


def cmp_p(o, p, q):
    if o == "lt":
        return gt(q - p)
    if o == "le":
        return ge(q - p)
    if o == "gt":
        return gt(p - q)
    if o == "ge":
        return ge(p - q)
    if o == "eq":
        return eq(p - q)
    return ONE - eq(p - q)


CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}


def nan_free(p):
    return leaf("nan") is not p and single_atom(leaf("nan")).id not in p_deep(p)


def cmp_nan(o):
    def f(p, q):
        if nan_free(p) and nan_free(q):
            return cmp_p(o, p, q)
        # comparisons with nan are false (!= true); nan enters linearly with an indicator coefficient
        ip, iq = isnan_p(p), isnan_p(q)
        bad = b_or(ip, iq)
        np_, nq = drop_nan(p), drop_nan(q)
        r = cmp_p(o, np_, nq)
        return pmul(ONE - bad, r) + (bad if o == "ne" else ZERO)
    return f


def isnan_p(p):
    nid = single_atom(leaf("nan")).id
    if nid not in p_deep(p):
        return ZERO
    co = {}
    for m, c in p.t.items():
        d = dict(m)
        if nid in d:
            del d[nid]
            co[tuple(sorted(d.items()))] = c
        else:
            for a, _ in m:
                if nid in atom_deep(ATOMS[a]):
                    raise Unsupported("nan inside a function")
    r = mkP(co)
    return ONE - eq(r)


def drop_nan(p):
    return subst(p, {single_atom(leaf("nan")).id: ZERO})


def scalar_key(v):
    """python-comparable representation of non-numeric values"""
    if isinstance(v, (str, Sym)) or v is None or v is Ellipsis:
        return True
    return False


def compare(I, op, a, b):
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a)
        return boolval(ONE - I.truth(r)) if isinstance(op, ast.NotIn) else r
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_same(I, a, b)
        if isinstance(r, P):
            return boolval(ONE - r) if isinstance(op, ast.IsNot) else boolval(r)
        return (not r) if isinstance(op, ast.IsNot) else r
    o = CMP[type(op)]
    return compare_vals(I, o, a, b)


def is_same(I, a, b):
    if isinstance(a, Phi):
        return select(a.c, C(is_same(I, a.a, b)), C(is_same(I, a.b, b)))
    if isinstance(a, bool) or isinstance(b, bool):
        if is_num(a) and is_num(b):
            x, y = arr_of(a), arr_of(b)
            if not x.shape and not y.shape:
                if x.dt != "bool" or y.dt != "bool":
                    return False
                return eq(x.p() - y.p())
        return False
    if a is None or b is None:
        if isinstance(a, Opq) or isinstance(b, Opq):
            raise Unsupported("identity with opaque")
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Prim) and isinstance(b, Prim):
        return a.name == b.name
    return a is b


def compare_vals(I, o, a, b):
    if isinstance(a, Phi):
        return I.join(a.c, compare_vals(I, o, a.a, b), compare_vals(I, o, a.b, b))
    if isinstance(b, Phi):
        return I.join(b.c, compare_vals(I, o, a, b.a), compare_vals(I, o, a, b.b))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return a if isinstance(a, Opq) else b
    if isinstance(a, (Inst, NT)) or isinstance(b, (Inst, NT)):
        swap = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(o, o)
        for x, y, n in ((a, b, o), (b, a, swap)):
            f = special(x, f"__{n}__")
            if f is not None:
                return I.call(f, [x, y], {})
            f = special(x, "__eq__") if o == "ne" else None
            if f is not None:
                return boolval(ONE - I.truth(I.call(f, [x, y], {})))
        if isinstance(a, Inst) or isinstance(b, Inst):
            return Opq("comparison of objects")
    if isinstance(a, LVec) or isinstance(b, LVec):
        n = len((a if isinstance(a, LVec) else b).items)
        xs, ys = [v.items if isinstance(v, PList) else v if isinstance(v, tuple) else [v] * n for v in (a, b)]
        if len(xs) != len(ys):
            raise Unsupported("label vectors of different lengths")
        return bools(I, [compare_vals(I, o, x, y) for x, y in zip(xs, ys)])
    if scalar_key(a) or scalar_key(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a == b:
                return o == "eq"
            n = f"symeq:{a!r}:{b!r}"
            declare(n, binary=True)
            p = leaf(n)
            return boolval(p if o == "eq" else ONE - p)
        for v in (a, b):
            v = v.arr if isinstance(v, Series) else v
            if isinstance(v, Arr):
                if v.dt == "object":
                    return Opq("comparison of objects")
                if not v.shape or v.lib == "py":
                    return o == "ne"
                return Arr(v.shape, lambda *i: ONE if o == "ne" else ZERO, "bool", v.lib)
        if isinstance(a, str) and isinstance(b, str):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[o]
        same = a is b
        return same if o == "eq" else not same
    if isinstance(a, tuple) and isinstance(b, tuple):
        if o in ("lt", "le", "gt", "ge"):
            ca, cb = [const_int(x) for x in a], [const_int(x) for x in b]
            if None not in ca and None not in cb:
                return {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb}[o]
            return Opq("tuple order")
        if len(a) != len(b):
            return o == "ne"
        p = ONE
        for x, y in zip(a, b):
            p = pmul(p, I.truth(compare_vals(I, "eq", x, y)))
        return boolval(p if o == "eq" else ONE - p)
    if isinstance(a, (PDict, NT, Prim, Func, PSet)) or isinstance(b, (PDict, NT, Prim, Func, PSet)):
        if isinstance(a, Prim) and isinstance(b, Prim):
            return (a.name == b.name) == (o == "eq")
        if isinstance(a, PSet) and isinstance(b, (PSet, PList)) or isinstance(b, PSet) and isinstance(a, PList):
            x, y = set_keys(a), set_keys(b)
            if x is not None and y is not None:
                x, y = set(x), set(y)
                return {"eq": x == y, "ne": x != y, "le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y}[o]
        return Opq("comparison of objects")
    if isinstance(a, PList) and isinstance(b, PList):
        return compare_vals(I, o, a.items, b.items)
    if isinstance(a, DF) or isinstance(b, DF):
        return Opq("frame comparison")
    x, ra = unwrap(I, a)
    y, rb = unwrap(I, b)
    r = ew(cmp_nan(o), x, y, dt="bool")
    if not r.shape and ra is None and rb is None:
        if x.lib == "py" and y.lib == "py":
            return boolval(r.p())
        return r
    return (ra or rb or (lambda z: z))(r)


def set_keys(s):
    """members by hashable key; None where equality of members is not decided"""
    if isinstance(s, PDict):
        return {k: k for k in s.d} if not s.missing else None
    out = {}
    for x in s if isinstance(s, tuple) else s.items:
        if isinstance(x, (str, Sym)) or x is None:
            k = x
        elif is_num(x) and arr_of(x).shape == () and arr_of(x).p().is_const():
            k = ("number", arr_of(x).p().const())
        elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
            k = x
        else:
            return None
        if isinstance(x, Sym):
            return None
        out.setdefault(k, x)
    return out


def set_op(I, o, a, b):
    x, y = (set_keys(v) if isinstance(v, (PSet, PList, PDict, tuple)) else None for v in (a, b))
    if x is None or y is None:
        return Opq("set operation")
    if o in ("or", "bitor"):
        return PSet({**x, **y}.values())
    if o in ("and", "bitand"):
        return PSet(v for k, v in x.items() if k in y)
    if o == "sub":
        return PSet(v for k, v in x.items() if k not in y)
    if o in ("xor", "bitxor"):
        return PSet([v for k, v in x.items() if k not in y] + [v for k, v in y.items() if k not in x])
    return Opq("set operation")


def distinct(items):
    """members of a set without those equal to an earlier one"""
    out = []
    for x in items:
        k = set_keys((x,))
        if k is not None and any(set_keys((y,)) == k or set(set_keys((y,)) or ()) == set(k) for y in out):
            continue
        out.append(x)
    return out


def bools(I, items):
    ps = [I.truth(t) for t in items]
    return Arr((C(len(ps)),), lambda i: stack_select(i, [lambda p=p: p for p in ps]), "bool", "np")


def contains(I, c, x):
    if isinstance(c, Phi):
        return I.join(c.c, contains(I, c.a, x), contains(I, c.b, x))
    if isinstance(c, Opq) or isinstance(x, Opq):
        return c if isinstance(c, Opq) else x
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return Opq("substring")
    if isinstance(c, PDict):
        k = I.hashable(x, c)
        if isinstance(k, Sym) and not I.is_store(c):
            return Opq("symbolic key")
        if k in c.d:
            here = I.has_key(c.cell, k, c.d[k])
            return True if here is ONE else boolval(here)
        return False
    if isinstance(c, DF):
        return x in c.cols
    if isinstance(c, (NT, Inst)):
        f = special(c, "__contains__")
        if f is not None:
            return I.call(f, [c, x], {})
        if isinstance(c, Inst):
            f = special(c, "__iter__")
            if f is None:
                raise Unsupported("membership in an object")
            c = PList(I.iterate_const(I.call(f, [c], {})))
        else:
            c = tuple(c.fields.values())
    if isinstance(c, LabelDF):
        return x == c.col
    if isinstance(c, LabelSeries):
        return any(k == x or k == (x,) for k in c.rows)
    if isinstance(c, Idx):
        c = c.levels[0]
    if isinstance(c, (tuple, PList, PSet)):
        items = c if isinstance(c, tuple) else c.items
        if any(isinstance(i, Seg) for i in items):
            raise Unsupported("membership in loop-built list")
        p = ZERO
        for y in items:
            t = I.truth(compare_vals(I, "eq", x, y))
            if t is ONE:
                return True
            p = b_or(p, t)
        return boolval(p)
    if isinstance(c, Rng):
        v = arr_of(x).p()
        if c.step is ONE and v.isint():
            return boolval(pmul(ge(v - c.start), ge(c.stop - 1 - v)))
        raise Unsupported("membership in range")
    if isinstance(c, Arr):
        e = compare_vals(I, "eq", c, x)
        return PRIMS["np.any"](I, e)
    raise Unsupported(f"membership in {type(c).__name__}")


# ------------------------------------------------------------------ dispatch
def find_phi(args, kwargs):
    for v in list(args) + list(kwargs.values()):
        if isinstance(v, Phi):
            return v
    return None


NOPHI = {"isinstance", "list", "tuple", "dict", "type", "print", "hasattr", "getattr", "functools.partial", "jax.jit", "jax.vmap"}


def call_prim(I, name, args, kwargs):
    if name in EXCS:
        return Opq("exception value") if False else Sym("exception")
    if name not in NOPHI:
        ph = find_phi(args, kwargs)
        if ph is not None:
            def side(v):
                return lambda: call_prim(I, name, [v if x is ph else x for x in args], {k: (v if x is ph else x) for k, x in kwargs.items()})

            def gside(attr):
                return lambda: side(getattr(ph, attr))()
            return I.branch(ph.c, gside("a"), gside("b"))
    fn = PRIMS.get(name)
    if fn is None and name.startswith("jnp."):
        base = PRIMS.get("np." + name[4:])
        if base is not None:
            r = bind_call(base, I, [jaxify_arg(a) for a in args], kwargs, name)
            return jaxify(r)
    if fn is None and name.startswith("math."):
        fn = PRIMS.get("np." + name[5:])
    if fn is None and name.startswith("jax.nn."):
        fn = None
    if fn is None:
        r = outside(I, name)
        if r is not None:
            return r
        if name.startswith(("random.", "secrets.", "uuid.", "np.random.", "time.", "os.urandom", "datetime.")):
            I.rng_events.append(dict(kind="unknown-source", name=name, where=I.where(), guard=I.guard()))
        raise Unsupported(f"library function {name}")
    for v in list(args) + list(kwargs.values()):
        if isinstance(v, Opq) and name not in NOPHI and name not in OPQ_OK:
            return v
    return bind_call(fn, I, args, kwargs, name)


OUTSIDE = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "os.getpid", "os.getppid",
           "random.random", "random.randint", "random.randrange", "random.uniform", "random.gauss", "random.normalvariate", "random.getrandbits", "secrets.randbits",
           "secrets.randbelow", "id", "hash"}


def outside(I, name):
    """a number that comes from outside the inputs"""
    if name not in OUTSIDE:
        return None
    if name.startswith("random.") and getattr(I, "py_seeded", False):
        return None
    n = I.uid("entropy")
    pl.declare(n, isint=not name.endswith(("random.random", "uniform", "gauss", "normalvariate", "time.time", "counter", "monotonic", "process_time")), lb=F(0))
    return scalar(leaf(n))


OPQ_OK = {"print", "pd.concat", "pd.DataFrame", "len", "copy.deepcopy", "copy.copy"}


def jaxify_arg(a):
    return a


def jaxify(r):
    if isinstance(r, Arr):
        if r.lib == "jax":
            return r
        return Arr(r.shape, r.fn(), r.dt, "jax", meta=r.meta)
    if isinstance(r, tuple):
        return tuple(jaxify(x) for x in r)
    if isinstance(r, PList):
        return PList([jaxify(x) for x in r.items])
    return r


def kind_of(o):
    if isinstance(o, Arr):
        return "Arr"
    if isinstance(o, Acc) and o.kind == "lstr":
        return "Lstr"
    return type(o).__name__


def call_method(I, obj, name, args, kwargs):
    ph = find_phi(args, kwargs)
    if ph is not None:
        return I.branch(ph.c, lambda: call_method(I, obj, name, [ph.a if x is ph else x for x in args], {k: (ph.a if x is ph else x) for k, x in kwargs.items()}),
                        lambda: call_method(I, obj, name, [ph.b if x is ph else x for x in args], {k: (ph.b if x is ph else x) for k, x in kwargs.items()}))
    k = kind_of(obj)
    if isinstance(obj, (Inst, NT)) and obj.cls is not None:
        f = find_cls_attr(obj.cls, name)
        if isinstance(f, Func):
            return I.call(f, [obj] + list(args), kwargs)
    fn = METHODS.get((k, name))
    if fn is None:
        raise Unsupported(f"method {name} of {k}")
    return bind_call(lambda I, *a, **kw: bind_call(fn, I, (obj,) + a, kw, f"{k}.{name}"), I, args, kwargs, f"{k}.{name}")


def special(o, name):
    """the special method of an instance of a class of the program, or None"""
    if isinstance(o, (Inst, NT)) and o.cls is not None:
        f = find_cls_attr(o.cls, name)
        if isinstance(f, Func):
            return f
    return None


def special_binop(I, o, a, b, inplace=False):
    """operators the classes of the program define; None when neither operand defines it"""
    n = {"shl": "lshift", "shr": "rshift", "div": "truediv"}.get(o, o)
    for obj, oth, names in ((a, b, (["__i%s__" % n] if inplace else []) + ["__%s__" % n]), (b, a, ["__r%s__" % n])):
        for name in names:
            f = special(obj, name)
            if f is not None:
                return I.call(f, [obj, oth], {})
    return None


def member(I, cls, f, obj):
    """value of a class attribute reached through an instance (obj) or the class (obj None)"""
    if isinstance(f, ClassMember):
        if f.how == "staticmethod":
            return f.fn
        if f.how == "classmethod":
            return Partial(f.fn, (cls,), {})
        if obj is None:
            raise Unsupported("property of a class")
        return I.call(f.fn, [obj], {})
    if isinstance(f, FieldSpec):
        raise Unsupported("field specification of a class")
    return f


class EnumAuto:
    pass


def find_cls_attr(cls, name):
    if name in cls.attrs.state:
        return cls.attrs.state[name]
    if name in cls.scope.vars:
        return cls.scope.vars[name]
    for b in cls.bases:
        if isinstance(b, ClassObj):
            r = find_cls_attr(b, name)
            if r is not None:
                return r
    return None


def getattr_(I, o, name):
    if isinstance(o, Opq):
        return Opq(f"attribute {name} of opaque")
    if isinstance(o, Mod):
        if o.name.split(".")[0] == I.package:
            m = I.load(o.name)
            if name in m.scope.vars:
                return m.scope.vars[name]
            try:
                I.load(o.name + "." + name)
                return Mod(o.name + "." + name)
            except AbsRaise:
                raise AbsRaise("AttributeError", f"{o.name}.{name}", I.where())
        return mod_attr(o.name, name)
    if isinstance(o, NT):
        if name in o.fields:
            return o.fields[name]
        if name in ("_replace", "_asdict", "_fields", "_make"):
            return tuple(o.fields) if name == "_fields" else Bound(o, name)
        if o.cls is not None:
            f = find_cls_attr(o.cls, name)
            if isinstance(f, Func):
                return Bound(o, name)
            if f is not None:
                return member(I, o.cls, f, o)
        raise AbsRaise("AttributeError", f"{o.name} has no attribute {name}", I.where())
    if isinstance(o, Arr):
        r = arr_attr(I, o, name)
        return Bound(o, name) if r is MISSING else r
    if isinstance(o, DF):
        if name in ("iloc", "loc", "at", "iat"):
            return Acc(o, name)
        if name == "columns":
            return Idx([tuple(o.cols)], ["columns"])
        if name == "values":
            return to_arr(I, o)
        if name == "shape":
            return (scalar(o.n, "int"), scalar(C(len(o.cols)), "int"))
        if name == "index":
            return Idx([o.index], ["frame"])
        if name == "empty":
            return boolval(eq(o.n))
        if name == "size":
            return scalar(o.n * len(o.cols), "int")
        if name == "dtypes":
            return Opq("dtypes")
        if name in o.cols:
            return Series(o.cols[name], o.index, name)
        return Bound(o, name)
    if isinstance(o, Series):
        if name in ("values", "array"):
            return o.arr
        if name in ("iloc", "loc", "at", "iat"):
            return Acc(o, name)
        if name == "shape":
            return tuple(scalar(s, "int") for s in o.arr.shape)
        if name in ("dtype", "size", "ndim"):
            return arr_attr(I, o.arr, name)
        if name == "index":
            return Idx([o.index], ["frame"])
        if name in ("cat", "str", "dt"):
            return Acc(o, name)
        if name == "name":
            return o.name
        return Bound(o, name)
    if isinstance(o, LabelDF):
        if name in ("loc", "iloc"):
            return Acc(o, name)
        if name == "index":
            return Idx([o], ["labels"])
        if name in ("values",):
            return to_arr(I, o)
        if name == "columns":
            return Idx([(o.col,)], ["columns"])
        if name == "shape":
            return (scalar(C(len(o.rows)), "int"), scalar(ONE, "int"))
        if name == o.col:
            return LabelSeries(o.rows, o.names)
        return Bound(o, name)
    if isinstance(o, LabelSeries):
        if name in ("values",):
            return to_arr(I, o)
        if name in ("loc", "iloc"):
            return Acc(o, name)
        if name == "index":
            return Idx([LabelDF(o.rows, "value", o.names)], ["labels"])
        if name == "shape":
            return (scalar(C(len(o.rows)), "int"),)
        return Bound(o, name)
    if isinstance(o, Inst):
        if name in o.cell.state:
            return o.cell.state[name]
        f = find_cls_attr(o.cls, name)
        if isinstance(f, Func):
            return Bound(o, name)
        if f is not None:
            return member(I, o.cls, f, o)
        if name == "__class__":
            return o.cls
        if name.startswith("__") or find_cls_attr(o.cls, "__getattr__") is not None:
            raise Unsupported(f"attribute {name} of an object")
        raise AbsRaise("AttributeError", name, I.where())
    if isinstance(o, ClassObj):
        f = find_cls_attr(o, name)
        if f is None:
            if name == "__name__":
                return o.name
            if name.startswith("_") or o.kind != "plain":
                raise Unsupported(f"attribute {name} of a class")
            raise AbsRaise("AttributeError", name, I.where())
        return member(I, o, f, None)
    if isinstance(o, Func):
        if name in o.attrs.state:
            return o.attrs.state[name]
        if name == "__name__":
            return o.name
        return Opq(f"function attribute {name}")
    if isinstance(o, Prim):
        if o.name.startswith("np.finfo"):
            return Opq("finfo")
        return Prim(o.name + "." + name)
    if isinstance(o, FInfo):
        return o.get(name)
    if isinstance(o, Acc):
        if o.kind in ("cat", "str", "dt"):
            if name == "codes":
                return o.obj
            raise Unsupported(f"accessor {o.kind}.{name}")
        return Bound(o, name)
    if isinstance(o, LVec):
        if name == "str":
            return Acc(o, "lstr")
        if name == "values":
            return o
        if name in ("size", "shape"):
            n = scalar(C(len(o.items)), "int")
            return n if name == "size" else (n,)
    if isinstance(o, Slice):
        return {"start": o.start, "stop": o.stop, "step": o.step}[name]
    if isinstance(o, Rng):
        return {"start": scalar(o.start), "stop": scalar(o.stop), "step": scalar(o.step)}[name]
    if isinstance(o, Partial):
        return {"func": o.fn, "args": tuple(o.args), "keywords": PDict(o.kwargs)}.get(name, Opq(name))
    if isinstance(o, (bool, int, float)):
        return getattr_(I, arr_of(o), name)
    return Bound(o, name)


class FInfo:
    def __init__(self, eps):
        self.eps = eps

    def get(self, name):
        if name == "eps":
            return scalar(F(1, 2 ** 52), "float")
        if name in ("tiny", "smallest_normal"):
            return scalar(F(1, 2 ** 1022), "float")
        if name == "max":
            return scalar(leaf("inf"), "float")
        raise Unsupported("finfo." + name)


def arr_attr(I, a, name):
    if name == "shape":
        return tuple(scalar(s, "int") for s in a.shape)
    if name == "ndim":
        return scalar(C(a.ndim), "int")
    if name == "size":
        p = ONE
        for s in a.shape:
            p = pmul(p, s)
        return scalar(p, "int")
    if name == "T":
        return transpose(a)
    if name == "dtype":
        return Prim({"float": "float", "int": "int", "bool": "bool", "int8": "np.int8", "int16": "np.int16", "float32": "np.float32", **{u: "np." + u for u in V.UNSIGNED}}.get(a.dt, "object"))
    if name == "at":
        return Acc(a, "at")
    if name == "flat":
        return PRIMS["np.ravel"](I, a)
    if name == "real":
        return a
    return MISSING


def transpose(a, axes=None):
    nd = a.ndim
    if axes is None:
        axes = list(range(nd))[::-1]
    axes = [x % nd for x in axes]
    inv = [axes.index(k) for k in range(nd)]
    tb0, fb0 = a.tobase, a.frombase

    def tob(*i):
        b = tuple(i[inv[k]] for k in range(nd))
        return tb0(*b) if tb0 else b

    def frb(*b):
        if fb0:
            c, v = fb0(*b)
        else:
            c, v = ONE, b
        return c, tuple(v[axes[k]] for k in range(nd))
    if a.lib == "jax" or (tb0 is not None and fb0 is None):
        f = a.fn()
        return Arr([a.shape[x] for x in axes], lambda *i: f(*[i[inv[k]] for k in range(nd)]), a.dt, a.lib)
    return Arr([a.shape[x] for x in axes], None, a.dt, a.lib, buf=a.buf, tobase=tob, frombase=frb)


# ------------------------------------------------------------------ items
def getitem_(I, o, key):
    if isinstance(key, Phi):
        return I.join(key.c, getitem_(I, o, key.a), getitem_(I, o, key.b))
    if isinstance(key, Opq):
        return key
    if isinstance(o, Arr):
        if o.lib == "list" and isinstance(key, Slice):
            r = V.getitem(o, key)
            return Arr(r.shape, r.fn(), r.dt, "list")
        if not o.shape and not (key is Ellipsis or key is None or key == ()):
            raise AbsRaise("IndexError", "invalid index to scalar variable", I.where())
        if any(isinstance(k, Opq) for k in (key if isinstance(key, tuple) else (key,))):
            return Opq("opaque index")
        return V.getitem(o, conv_key(I, key))
    if isinstance(o, PDict):
        k = I.hashable(key, o)
        if k in o.d:
            return o.d[k]
        if o.missing is not None:
            return o.missing(k)
        raise AbsRaise("KeyError", repr(k), I.where())
    if isinstance(o, (tuple, PList)):
        items = o if isinstance(o, tuple) else o.items
        if any(isinstance(x, Seg) for x in items):
            n, el = seg_elem(I, items)
            if isinstance(key, Slice):
                raise Unsupported("slice of a loop-built list")
            return el(wrap_neg(arr_of(key).p(), n))
        if isinstance(key, Slice):
            b = [None if x is None else const_int(x) for x in (key.start, key.stop, key.step)]
            if any(x is not None and y is None for x, y in zip((key.start, key.stop, key.step), b)):
                raise Unsupported("symbolic slice of a list")
            r = items[b[0]:b[1]:b[2]]
            return r if isinstance(o, tuple) else PList(r)
        c = const_int(key)
        if c is not None:
            try:
                return items[c]
            except IndexError:
                raise AbsRaise("IndexError", "list index out of range", I.where())
        if is_num(key):
            if all(is_num(x) for x in items):
                p = arr_of(key).p()
                arrs = [to_arr(I, x) for x in items]
                return V.getitem(stack_arrs(arrs), scalar(p))
            p = arr_of(key).p()
            v = items[-1]
            for k in range(len(items) - 2, -1, -1):
                v = I.join(eq(p - k), items[k], v)
            return v
        raise Unsupported("list index")
    if isinstance(o, NT):
        f = special(o, "__getitem__")
        if f is not None:
            return I.call(f, [o, key], {})
        return getitem_(I, tuple(o.fields.values()), key)
    if isinstance(o, Inst):
        f = find_cls_attr(o.cls, "__getitem__")
        if isinstance(f, Func):
            return I.call(f, [o, key], {})
        raise Unsupported("item of an object")
    if isinstance(o, str):
        c = const_int(key)
        if c is not None:
            return o[c]
        if isinstance(key, Slice):
            b = [None if x is None else const_int(x) for x in (key.start, key.stop, key.step)]
            return o[b[0]:b[1]:b[2]]
        raise Unsupported("string index")
    if isinstance(o, Rng):
        if isinstance(key, Slice):
            st, ln, step = slice_params(key, I.rng_len(o))
            a = o.start + pmul(o.step, st)
            return Rng(a, a + pmul(o.step, ln) * step, o.step * step)
        return scalar(o.start + o.step * wrap_neg(arr_of(key).p(), I.rng_len(o)), "int")
    if isinstance(o, Acc):
        if o.kind == "at" and isinstance(o.obj, Arr):
            return AtRef(o.obj, conv_key(I, key))
        from . import lib_pd
        return lib_pd.acc_get(I, o, key)
    if isinstance(o, (DF, Series, LabelDF, LabelSeries, Idx)):
        from . import lib_pd
        return lib_pd.pd_get(I, o, key)
    if isinstance(o, SymIter):
        return o.el(arr_of(key).p())
    if isinstance(o, Sym):
        return Opq("item of symbolic object")
    if isinstance(o, Prim):
        return o
    raise Unsupported(f"index into {type(o).__name__}")


def conv_key(I, key):
    if isinstance(key, tuple):
        return tuple(conv_key(I, k) for k in key)
    if isinstance(key, Series):
        return key.arr
    if isinstance(key, (PList, Rng)):
        return to_arr(I, key)
    return key


def setitem_(I, o, key, v):
    if isinstance(o, Arr):
        if o.lib == "jax":
            raise AbsRaise("TypeError", "JAX arrays are immutable", I.where())
        if isinstance(v, Opq) or isinstance(key, Opq):
            I.havoc_value(o, "opaque value stored")
            return
        V.setitem(o, conv_key(I, key), v)
        return
    if isinstance(o, PDict):
        I.on_mutate(o.cell, f"key {key!r}")
        d = dict(o.d)
        d[I.hashable(key, o)] = v
        o.cell.set(d)
        return
    if isinstance(o, PList):
        I.on_mutate(o.cell, "list item")
        c = const_int(key) if not isinstance(key, Slice) else None
        if c is None or not o.simple():
            raise Unsupported("list item store")
        items = list(o.items)
        try:
            items[c] = v
        except IndexError:
            raise AbsRaise("IndexError", "list assignment", I.where())
        o.cell.set(tuple(items))
        return
    if isinstance(o, tuple):
        raise AbsRaise("TypeError", "tuple item assignment", I.where())
    if isinstance(o, (Inst, NT)):
        f = special(o, "__setitem__")
        if f is None:
            raise Unsupported("item store of an object")
        I.call(f, [o, key, v], {})
        return
    from . import lib_pd
    lib_pd.pd_set(I, o, key, v)


from . import lib_py, lib_np, lib_rng, lib_jax, lib_pd    # noqa: E402,F401
from . import lib_more    # noqa: E402,F401
