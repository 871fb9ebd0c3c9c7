"""further library functions that a rewrite of the package may use"""
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .lib import prim, PRIMS, METHODS, to_arr, SymIter, compare_vals, arr_binop, jaxify, stack_arrs
from .lib import isnan_p
from .lib_np import npa, as_np, np_sum, np_mean, axis_of, reduction, un
from . import lib as L


# ------------------------------------------------------------------ numpy
un("exp2", lambda p: pl.exp(pmul(p, pl.log(C(2)))), "float")
PRIMS["np.fix"] = PRIMS["np.trunc"]
for _n in ("np.asfortranarray", "np.require"):
    PRIMS[_n] = PRIMS["np.ascontiguousarray"]


@prim("np.heaviside")
def heaviside(I, x, h):
    return as_np(ew(lambda p, q: gt(p) + pmul(eq(p), q), npa(I, x), npa(I, h), dt="float"))


@prim("np.copysign")
def copysign(I, a, b):
    return as_np(ew(lambda p, q: pmul(pmax(p, -p), pscale(ge(q), F(2)) - ONE), npa(I, a), npa(I, b), dt="float"))


@prim("np.hypot")
def hypot(I, a, b):
    return as_np(ew(lambda p, q: ppow(pmul(p, p) + pmul(q, q), F(1, 2)), npa(I, a), npa(I, b), dt="float"))


@prim("np.divmod")
def np_divmod(I, a, b):
    return (PRIMS["np.floor_divide"](I, a, b), PRIMS["np.mod"](I, a, b))


@prim("np.ptp")
def ptp(I, a, axis=None):
    return I.binop("sub", PRIMS["np.max"](I, a, axis=axis), PRIMS["np.min"](I, a, axis=axis))


@prim("np.var", "np.nanvar")
def np_var(I, a, axis=None, dtype=None, ddof=0, keepdims=False):
    x = npa(I, a)
    m = np_mean(I, x, axis=axis, keepdims=True)
    d = I.binop("sub", x, m)
    s = np_sum(I, I.binop("mul", d, d), axis=axis, keepdims=keepdims)
    n = ONE
    for k in range(x.ndim) if axis is None else [axis_of(z, x.ndim) for z in (axis if isinstance(axis, tuple) else (axis,))]:
        n = pmul(n, x.shape[k])
    n = n - arr_of(ddof).p()
    return ew(lambda p: p / n, to_arr(I, s), dt="float")


@prim("np.std", "np.nanstd")
def np_std(I, a, axis=None, dtype=None, ddof=0, keepdims=False):
    return PRIMS["np.sqrt"](I, np_var(I, a, axis=axis, ddof=ddof, keepdims=keepdims))


METHODS["Arr", "var"] = lambda I, a, axis=None, ddof=0, keepdims=False: np_var(I, a, axis=axis, ddof=ddof, keepdims=keepdims)
METHODS["Arr", "std"] = lambda I, a, axis=None, ddof=0, keepdims=False: np_std(I, a, axis=axis, ddof=ddof, keepdims=keepdims)
METHODS["Arr", "ptp"] = ptp


@prim("np.choose")
def choose(I, idx, choices, out=None, mode="raise"):
    kind, s = I.iterate(choices)
    if kind != "const":
        raise Unsupported("choose of a symbolic number of arrays")
    r = s[-1]
    for k in range(len(s) - 2, -1, -1):
        r = PRIMS["np.where"](I, compare_vals(I, "eq", npa(I, idx), scalar(C(k), "int")), s[k], r)
    return r


METHODS["Arr", "choose"] = choose


@prim("np.compress", "np.extract")
def compress(I, cond, a, axis=None):
    if axis is not None and const_int(axis) != 0:
        raise Unsupported("compress along another axis")
    return I.getitem(npa(I, a), npa(I, cond))


METHODS["Arr", "compress"] = lambda I, a, cond, axis=None: compress(I, cond, a, axis)


@prim("np.trapz", "np.trapezoid")
def trapz(I, y, x=None, dx=1.0, axis=-1):
    f = npa(I, y)
    if f.ndim != 1:
        raise Unsupported("trapz of n-d array")
    v = f.fn()
    mid = Arr((f.shape[0] - 1,), lambda k: pscale(v(k) + v(k + 1), F(1, 2)), "float", "np")
    w = PRIMS["np.diff"](I, x) if x is not None else dx
    return np_sum(I, I.binop("mul", mid, w))


@prim("np.fromiter")
def fromiter(I, it, dtype=None, count=-1):
    return PRIMS["np.array"](I, PRIMS["list"](I, it), dtype=dtype)


@prim("np.ndindex")
def ndindex(I, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
        shape = I.iterate(shape[0])[1]
    return PRIMS["itertools.product"](I, *[PRIMS["range"](I, s) for s in shape])


@prim("np.ndenumerate")
def ndenumerate(I, a):
    x = npa(I, a)
    kind, s = I.iterate(ndindex(I, *[scalar(n, "int") for n in x.shape]))
    if kind == "const":
        return PList([(k, I.getitem(x, k)) for k in s])
    n, el = s
    return SymIter(n, lambda k: (el(k), I.getitem(x, el(k))))


def _acc(op):
    def f(I, a, axis=0):
        x = npa(I, a)
        n = const_int(x.shape[0]) if x.ndim == 1 else None
        if n is None or n > 64:
            raise Unsupported("accumulate over a symbolic dimension")
        out = [x.at(ZERO)]
        for k in range(1, n):
            out.append(op(out[-1], x.at(C(k))))
        return stack_arrs([scalar(v, x.dt) for v in out]) if n else x
    return f


PRIMS["np.maximum.accumulate"] = _acc(pmax)
PRIMS["np.minimum.accumulate"] = _acc(pmin)
METHODS["Arr", "cumprod"] = lambda I, a, axis=None: PRIMS["np.cumprod"](I, a)


# ------------------------------------------------------------------ jax
@prim("jax.nn.sigmoid", "scipy.special.expit", "jax.scipy.special.expit")
def sigmoid(I, x):
    return ew(lambda p: ppow(ONE + pl.exp(-p), F(-1)), npa(I, x), dt="float")


@prim("jax.nn.softplus")
def softplus(I, x):
    return ew(lambda p: pl.log(ONE + pl.exp(p)), npa(I, x), dt="float")


PRIMS["jax.remat"] = PRIMS["jax.jit"]
PRIMS["jax.named_scope"] = PRIMS["contextlib.nullcontext"]


# ------------------------------------------------------------------ Python
@prim("itertools.zip_longest")
def zip_longest(I, *seqs, fillvalue=None):
    import itertools
    out = [I.iterate(s) for s in seqs]
    if any(k != "const" for k, _ in out):
        raise Unsupported("zip_longest over a symbolic sequence")
    return PList(list(itertools.zip_longest(*[s for _, s in out], fillvalue=fillvalue)))


@prim("math.fsum")
def fsum(I, seq):
    return PRIMS["sum"](I, seq)


@prim("types.MappingProxyType")
def proxy(I, d):
    return d


# ------------------------------------------------------------------ pandas
def _cells(op, swap=False):
    def f(I, o, other, axis=None, level=None, fill_value=None):
        if not is_num(other) or arr_of(other).shape or level is not None or fill_value is not None:
            raise Unsupported("frame elementwise method with a frame or series")
        b = arr_of(other)
        return DF({c: (arr_binop(I, op, b, a) if swap else arr_binop(I, op, a, b)) for c, a in o.cols.items()}, o.n, index=o.index)
    return f


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "div"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"),
               ("truediv", "div"), ("pow", "pow"), ("mod", "mod"), ("floordiv", "floordiv")):
    METHODS["DF", _n] = _cells(_o)


def _cellcmp(op):
    def f(I, o, other, axis=None, level=None):
        if not is_num(other) or arr_of(other).shape:
            raise Unsupported("frame comparison with a frame or series")
        return DF({c: to_arr(I, compare_vals(I, op, a, other)) for c, a in o.cols.items()}, o.n, index=o.index)
    return f


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    METHODS["DF", _n] = _cellcmp(_n)


def _percol(name):
    def f(I, o, *a, **kw):
        out = {}
        for c, v in o.cols.items():
            r = L.call_method(I, Series(v, o.index, c), name, list(a), dict(kw))
            if not isinstance(r, Series):
                raise Unsupported("frame method")
            out[c] = r.arr
        return DF(out, o.n, index=o.index)
    return f


for _n in ("clip", "abs", "round", "isna", "isnull", "notna", "notnull", "isin", "fillna"):
    def _m(I, o, *a, _n=_n, **kw):
        if any(not (is_num(x) or x is None or isinstance(x, (PList, tuple))) for x in list(a) + list(kw.values())):
            raise Unsupported("frame method with a structured argument")
        return _percol(_n)(I, o, *a, **kw)
    METHODS["DF", _n] = _m


def _rowred(name):
    def f(I, o, axis=0, skipna=True, numeric_only=False, **kw):
        by_row = axis == "columns" or is_num(axis) and const_int(axis) == 1
        if not by_row or kw or not o.cols:
            raise Unsupported("frame reduction by column")
        cols = list(o.cols.values())
        if any(a.dt not in ("int", "float", "bool") for a in cols) or skipna is not True:
            raise Unsupported("frame reduction")
        if any("nan" in str(a.at(leaf("row_"))) for a in cols):
            raise Unsupported("row reduction with missing values")
        mat = Arr((o.n, C(len(cols))), lambda i, k: V.stack_select(k, [lambda a=a: a.at(i) for a in cols]), "float" if any(a.dt == "float" for a in cols) else cols[0].dt, "np")
        r = PRIMS["np." + name](I, mat, axis=scalar(ONE, "int"))
        return Series(to_arr(I, r), o.index)
    return f


for _n in ("sum", "mean", "min", "max", "any", "all"):
    METHODS["DF", _n] = _rowred(_n)


METHODS["DF", "pipe"] = METHODS["Series", "pipe"] = lambda I, o, f, *a, **kw: I.call(f, [o] + list(a), kw)
METHODS["Series", "squeeze"] = lambda I, o, axis=None: o


@prim("pd.unique")
def pd_unique(I, x):
    raise Unsupported("pd.unique")


def s_rename(I, o, index=None, **kw):
    if kw or not (isinstance(index, str) or index is None):
        raise Unsupported("series rename")
    return Series(o.arr, o.index, index)


METHODS["Series", "rename"] = s_rename


METHODS["Series", "var"] = lambda I, o, axis=None, skipna=True, ddof=1, numeric_only=False: np_var(I, o.arr, ddof=ddof)
METHODS["Series", "std"] = lambda I, o, axis=None, skipna=True, ddof=1, numeric_only=False: np_std(I, o.arr, ddof=ddof)


# ------------------------------------------------------------------ options the models above do not follow
def strict(table, entries, **neutral):
    """an argument with another value than the neutral ones makes the call unmodelled"""
    import functools
    import inspect
    for key in entries:
        fn = table.get(key)
        if fn is None:
            continue
        sig = inspect.signature(fn)
        names = [n for n in sig.parameters][1:]

        @functools.wraps(fn)
        def f(I, *a, _fn=fn, _names=tuple(names), _key=key, **kw):
            got = dict(zip(_names, a))
            got.update(kw)
            for n, ok in neutral.items():
                if n in got and got[n] is not None and not neutral_value(got[n], ok):
                    raise Unsupported(f"{_key} with {n}")
            return _fn(I, *a, **kw)
        f.__signature__ = sig
        table[key] = f


def neutral_value(v, ok):
    for o in ok:
        if isinstance(o, (str, bool)):
            if isinstance(v, type(o)) and v == o:
                return True
        elif is_num(v) and const_int(v) == o:
            return True
    return False


REDUCTIONS = ("sum", "nansum", "prod", "max", "amax", "nanmax", "min", "amin", "nanmin", "any", "all", "argmax", "argmin")
strict(PRIMS, ["np." + n for n in REDUCTIONS], initial=(), out=(), skipna=(True,))
strict(METHODS, [("Arr", n) for n in REDUCTIONS], initial=(), out=(), skipna=(True,))
strict(METHODS, [("Series", n) for n in ("sum", "mean", "any", "all", "min", "max", "prod", "cumsum")], min_count=(0,))
strict(PRIMS, [k for k in PRIMS if k.startswith("np.")], out=(), casting=("same_kind",))
strict(PRIMS, ["np." + n for n in ("exp", "log", "log1p", "expm1", "log2", "log10", "sqrt", "square", "floor", "ceil", "trunc", "negative", "reciprocal", "sign", "sin", "cos",
                                   "tan", "tanh", "arctan", "sinh", "cosh", "exp2")], where=(True,))
strict(PRIMS, ["np.array"], ndmin=(0,))
strict(PRIMS, ["np.searchsorted"], sorter=())
strict(METHODS, [("Arr", "searchsorted"), ("Series", "searchsorted")], sorter=())
strict(PRIMS, ["pd.concat"], join=("outer",), keys=())
strict(PRIMS, ["pd.cut"], retbins=(False,), duplicates=("raise",))
strict(METHODS, [("DF", "reset_index")], level=(), names=())
strict(METHODS, [("DF", "xs")], axis=(0, "index"), drop_level=(True,))
strict(METHODS, [("DF", "drop")], level=())
strict(METHODS, [("Series", n) for n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "truediv", "pow", "mod", "floordiv", "subtract", "multiply", "divide", "radd",
                                         "rsub", "rmul", "rdiv", "rpow")], level=(), fill_value=())
strict(PRIMS, ["int"], base=(10,))
strict(PRIMS, ["jax.nn.one_hot"], axis=(-1,))
strict(PRIMS, ["scipy.special.roots_hermite", "scipy.special.roots_hermitenorm"], mu=(False,))


# ------------------------------------------------------------------ missing values
def without_nan(name):
    inner = PRIMS[name]

    def f(I, a, *r, **kw):
        x = npa(I, a)
        if isnan_p(x.at(*[leaf("row_") for _ in x.shape])).t:
            raise Unsupported("missing values")
        return inner(I, a, *r, **kw)
    PRIMS[name] = f


def nansum(I, a, *r, **kw):
    x = npa(I, a)
    return PRIMS["np.sum"](I, ew(lambda p: select(isnan_p(p), ZERO, p), x), *r, **kw)


PRIMS["np.nansum"] = nansum
for _n in ("np.nanmax", "np.nanmin", "np.nanmean", "np.nanargmax", "np.nanvar", "np.nanstd"):
    without_nan(_n)


@prim("np.digitize")
def digitize(I, x, bins, right=False):
    b = to_arr(I, bins)
    n = const_int(b.shape[0]) if b.ndim == 1 else None
    vals = [b.at(C(k)) for k in range(n)] if n is not None else []
    if len(vals) > 1 and all(v.is_const() for v in vals) and vals[0].const() > vals[-1].const():
        return as_np(ew(lambda p: psum([(ge if const_int(right) else gt)(v - p) for v in vals]), npa(I, x), dt="int"))
    return PRIMS["np.searchsorted"](I, bins, x, side="left" if const_int(right) else "right")


# ------------------------------------------------------------------ sets
def _setm(op, swap=False):
    def f(I, o, *others):
        for x in others:
            o = L.set_op(I, op, o, x if isinstance(x, (PSet, PList, PDict, tuple)) else PSet(I.iterate(x)[1]))
            if isinstance(o, Opq):
                raise Unsupported("set operation")
        return o
    return f


for _n, _o in (("union", "or"), ("intersection", "and"), ("difference", "sub"), ("symmetric_difference", "xor")):
    METHODS["PSet", _n] = _setm(_o)


def _setc(op):
    def f(I, o, other):
        x, y = L.set_keys(o), L.set_keys(other if isinstance(other, (PSet, PList, PDict, tuple)) else PSet(I.iterate(other)[1]))
        if x is None or y is None:
            raise Unsupported("set comparison")
        x, y = set(x), set(y)
        return {"le": x <= y, "ge": x >= y, "disjoint": not x & y}[op]
    return f


for _n, _o in (("issubset", "le"), ("issuperset", "ge"), ("isdisjoint", "disjoint")):
    METHODS["PSet", _n] = _setc(_o)


# ------------------------------------------------------------------ results written into a given array
def writes_out(name):
    inner = PRIMS[name]

    import functools
    import inspect

    @functools.wraps(inner)
    def f(I, *a, **kw):
        out = kw.pop("out", None)
        r = inner(I, *a, **kw)
        if out is None:
            return r
        if not isinstance(out, Arr) or out.lib != "np" or isinstance(r, Opq):
            raise Unsupported(f"{name} with out")
        I.setitem(out, tuple(Slice(None, None, None) for _ in out.shape), r)
        return out
    f.__signature__ = inspect.signature(inner)
    PRIMS[name] = f


for _n in ("add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "exp", "log", "sqrt", "clip", "negative", "square", "logical_and",
           "logical_or", "floor"):
    writes_out("np." + _n)
