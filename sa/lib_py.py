"""Python builtins, containers, copy / functools / collections / yaml."""
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .lib import prim, method, PRIMS, SymIter, Sym, boolval, to_arr, list_len, stack_arrs, concat_arrs, compare_vals, NOPHI, getattr_, Acc, FInfo, find_cls_attr, special, EnumAuto


@prim("len")
def _len(I, v):
    f = special(v, "__len__")
    if f is not None:
        return I.call(f, [v], {})
    if isinstance(v, (tuple, str)):
        return scalar(C(len(v)), "int")
    if isinstance(v, PList):
        return scalar(list_len(v), "int")
    if isinstance(v, PDict):
        return scalar(C(len(v.d)), "int")
    if isinstance(v, PSet):
        return scalar(C(len(v.items)), "int")
    if isinstance(v, Arr):
        if not v.shape:
            raise AbsRaise("TypeError", "len() of unsized object", I.where())
        return scalar(v.shape[0], "int")
    if isinstance(v, Series):
        return scalar(v.arr.shape[0], "int")
    if isinstance(v, DF):
        return scalar(v.n, "int")
    if isinstance(v, (LabelDF, LabelSeries)):
        return scalar(C(len(v.rows)), "int")
    if isinstance(v, NT):
        return scalar(C(len(v.fields)), "int")
    if isinstance(v, Rng):
        return scalar(I.rng_len(v), "int")
    if isinstance(v, SymIter):
        return scalar(v.n, "int")
    if isinstance(v, Idx):
        x = v.levels[0]
        if isinstance(x, tuple):
            return scalar(C(len(x)), "int")
        if isinstance(x, LabelDF):
            return scalar(C(len(x.rows)), "int")
        if isinstance(x, dict):
            return scalar(next(iter(x.values())).shape[0], "int")
    raise Unsupported(f"len of {type(v).__name__}")


@prim("int")
def _int(I, v=0, base=None):
    if isinstance(v, str):
        try:
            return scalar(C(int(v)), "int")
        except ValueError:
            raise AbsRaise("ValueError", f"int({v!r})", I.where())
    a = to_arr(I, v)
    return scalar(trunc(a.p()), "int")


@prim("float", "np.float64")
def _float(I, v=0):
    if isinstance(v, str):
        import fractions
        if v in ("nan", "NaN"):
            return scalar(leaf("nan"), "float")
        if v in ("inf", "-inf"):
            return scalar(leaf("inf") if v == "inf" else -leaf("inf"), "float")
        try:
            return scalar(C(fractions.Fraction(v)), "float")
        except ValueError:
            raise AbsRaise("ValueError", f"float({v!r})", I.where())
    a = to_arr(I, v)
    return scalar(a.p(), "float")


@prim("np.int64", "np.int32")
def _npint(I, v=0):
    return PRIMS["np.asarray"](I, v, dtype=V.Prim("int")) if to_arr(I, v).shape else _int(I, v)


@prim("np.float32", "np.float16", "jnp.float32")
def _f32(I, v=0):
    return astype(to_arr(I, v), "float32")


@prim("np.int16")
def _npint16(I, v=0):
    return astype(to_arr(I, v), "int16")


@prim("np.int8")
def _npint8(I, v=0):
    return astype(to_arr(I, v), "int8")


@prim("bool", "np.bool_")
def _bool(I, v=False):
    return boolval(I.truth(v))


@prim("str", "repr")
def _str(I, v=""):
    if isinstance(v, str):
        return v
    if is_num(v) and const_int(v) is not None:
        return str(const_int(v))
    return Sym("str")


@prim("abs", "np.abs", "np.absolute", "np.fabs")
def _abs(I, v):
    if isinstance(v, Series):
        return Series(_abs(I, v.arr), v.index, v.name)

    def f(p):
        if nonneg(p):
            return p
        return pmax(p, -p)
    return ew(f, to_arr(I, v))


def minmax(I, args, kwargs, fn):
    if len(args) == 1:
        kind, seq = I.iterate(args[0])
        if kind != "const":
            a = to_arr(I, args[0])
            return PRIMS["np.max" if fn is pmax else "np.min"](I, a)
        if not seq:
            if "default" in kwargs:
                return kwargs["default"]
            raise AbsRaise("ValueError", "empty sequence", I.where())
    else:
        seq = args
    if kwargs.get("key") is not None:
        keys = [to_arr(I, I.call(kwargs["key"], [x], {})).p() for x in seq]
        if not all(k.is_const() for k in keys):
            raise Unsupported("extremum by a symbolic key")
        return (max if fn is pmax else min)(zip(seq, keys), key=lambda t: t[1].const())[0]
    if any(isinstance(x, str) for x in seq):
        return (max if fn is pmax else min)(seq)
    ps = [to_arr(I, x) for x in seq]
    return scalar(fn(*[a.p() for a in ps]), promote(*[a.dt for a in ps]))


@prim("max")
def _max(I, *args, **kw):
    return minmax(I, args, kw, pmax)


@prim("min")
def _min(I, *args, **kw):
    return minmax(I, args, kw, pmin)


@prim("sum")
def _sum(I, v, start=0):
    if isinstance(v, PList) and not v.simple() or isinstance(v, (Arr, Series, SymIter)):
        a = to_arr(I, v)
        r = PRIMS["np.sum"](I, a, axis=scalar(ZERO))
        return I.binop("add", start, r)
    kind, seq = I.iterate(v)
    acc = start
    for x in seq:
        acc = I.binop("add", acc, x)
    return acc


@prim("range")
def _range(I, *a):
    ps = [arr_of(x).p() for x in a]
    if any(not p.isint() for p in ps):
        raise AbsRaise("TypeError", "range of a float", I.where())
    if len(ps) == 1:
        return Rng(ZERO, ps[0])
    return Rng(*ps)


def zip_iter(I, seqs):
    its = [I.iterate(s) for s in seqs]
    if all(k == "const" for k, _ in its):
        m = min(len(s) for _, s in its)
        return PList([tuple(s[i] for _, s in its) for i in range(m)])
    ns = [C(len(s)) if k == "const" else s[0] for k, s in its]
    n = ns[0]
    for x in ns[1:]:
        if not dim_eq(n, x):
            n = -pmax(-n, -x)

    def el(k):
        out = []
        for (kind, s) in its:
            if kind == "const":
                out.append(I.getitem(PList(s), scalar(k)))
            else:
                out.append(s[1](k))
        return tuple(out)
    return SymIter(n, el)


@prim("zip")
def _zip(I, *seqs, strict=False):
    return zip_iter(I, seqs)


@prim("enumerate")
def _enum(I, v, start=0):
    st = arr_of(start).p()
    kind, s = I.iterate(v)
    if kind == "const":
        return PList([(scalar(st + i, "int"), x) for i, x in enumerate(s)])
    n, el = s
    return SymIter(n, lambda k: (scalar(st + k, "int"), el(k)))


@prim("reversed")
def _rev(I, v):
    kind, s = I.iterate(v)
    if kind == "const":
        return PList(list(s)[::-1])
    n, el = s
    return SymIter(n, lambda k: el(n - 1 - k))


@prim("list", "tuple")
def _list(I, v=()):
    if isinstance(v, Phi):
        return I.join(v.c, _list(I, v.a), _list(I, v.b))
    if isinstance(v, Series):
        v = v.arr
    if isinstance(v, Arr) and v.shape and not v.shape[0].is_const() and v.ndim == 1:
        return Arr(v.shape, v.fn(), v.dt, "list")
    if isinstance(v, PList) and not v.simple():
        return PList(v.items)
    if isinstance(v, Idx):
        v = idx_list(v)
    if isinstance(v, Opq):
        return v
    kind, s = I.iterate(v)
    if kind == "const":
        return PList(s)
    n, el = s
    x = el(ZERO)
    if is_num(x) and not arr_of(x).shape:
        a = to_arr(I, SymIter(n, el))
        return Arr(a.shape, a.fn(), a.dt, "list")
    k = fresh_index(n, "c")
    return PList([Seg(n, k, (el(k),))])


def _tuple(I, v=()):
    r = _list(I, v)
    return tuple(r.items) if isinstance(r, PList) and r.simple() else r


PRIMS["tuple"] = _tuple


def idx_list(v):
    x = v.levels[0]
    if isinstance(x, tuple):
        return x
    raise Unsupported("index as list")


@prim("dict")
def _dict(I, v=None, **kw):
    if v is None:
        return PDict(dict(kw))
    if isinstance(v, PDict):
        return PDict({**v.d, **kw})
    if isinstance(v, NT):
        raise Unsupported("dict of tuple")
    kind, s = I.iterate(v)
    if kind != "const":
        raise Unsupported("dict of symbolic sequence")
    d = {}
    for x in s:
        k, w = I.iterate(x)[1]
        d[I.hashable(k)] = w
    d.update(kw)
    return PDict(d)


@prim("set", "frozenset")
def _set(I, v=()):
    out = []
    for x in I.iterate(v)[1] if v != () else []:
        if not any(x is y or (isinstance(x, (str, tuple)) and x == y) for y in out):
            out.append(x)
    return PSet(out)


@prim("sorted")
def _sorted(I, v, key=None, reverse=False):
    kind, s = I.iterate(v)
    if kind != "const":
        raise Unsupported("sorting a symbolic sequence")
    ks = [I.call(key, [x], {}) if key is not None else x for x in s]

    def conv(k):
        if isinstance(k, str):
            return k
        if isinstance(k, tuple):
            out = []
            for y in k:
                try:
                    out.append(conv(y))
                except Unsupported:
                    # later components matter only on ties
                    out.append(None)
            return tuple(out)
        c = const_int(k)
        if c is not None:
            return c
        if is_num(k) and arr_of(k).p().is_const():
            return arr_of(k).p().const()
        raise Unsupported("symbolic sort key")
    kk = [conv(k) for k in ks]

    def cut(k):
        if isinstance(k, tuple):
            out = []
            for y in k:
                if y is None:
                    break
                out.append(y)
            return tuple(out)
        return k
    cc = [cut(k) for k in kk]
    if any(isinstance(k, tuple) and None in k for k in kk) and len(set(cc)) != len(cc):
        raise Unsupported("symbolic sort key")
    order = sorted(range(len(s)), key=lambda i: cc[i], reverse=bool(const_int(reverse)) if not isinstance(reverse, bool) else reverse)
    return PList([s[i] for i in order])


TYPES = {"str": str, "dict": PDict, "list": PList, "tuple": tuple, "pd.DataFrame": (DF, LabelDF), "pd.Series": (Series, LabelSeries), "np.ndarray": None,
         "set": PSet}


def has_type(v, t):
    n = t.name if isinstance(t, Prim) else None
    if n is None:
        if isinstance(t, (ClassObj, NTClass)):
            return isinstance(v, (Inst, NT)) and (any(c is t for c in v.cls.mro()) if v.cls is not None else v.name == t.name)
        raise Unsupported("isinstance type")
    if n in ("pathlib.Path", "pathlib.PurePath", "os.PathLike"):
        return isinstance(v, Sym) and v.name.startswith("path")
    if n == "str":
        return isinstance(v, str) or isinstance(v, Sym) and not v.name.startswith("path")
    if n in ("np.ndarray",):
        return isinstance(v, Arr) and v.lib == "np" and v.ndim > 0
    if n in ("jnp.ndarray", "jax.Array"):
        return isinstance(v, Arr) and v.lib == "jax"
    if n == "bool" or n == "np.bool_":
        return isinstance(v, bool) or isinstance(v, Arr) and not v.shape and v.dt == "bool"
    if n in ("int", "np.integer", "numbers.Integral", "np.int64"):
        if isinstance(v, bool):
            return n in ("int", "numbers.Integral")
        return isinstance(v, Arr) and not v.shape and v.dt in V.INTS and v.dt != "bool"
    if n in ("float", "np.floating", "np.float64"):
        return isinstance(v, Arr) and not v.shape and v.dt in ("float", "float32")
    if n in ("numbers.Number", "numbers.Real"):
        return is_num(v) and not arr_of(v).shape
    if n == "object":
        return True
    if n in ("collections.abc.Mapping", "collections.abc.MutableMapping", "typing.Mapping"):
        return isinstance(v, PDict)
    if n == "list" and isinstance(v, Arr) and v.lib == "list":
        return True
    ty = TYPES.get(n)
    if n == "tuple":
        return isinstance(v, (tuple, NT))
    if ty is None:
        raise Unsupported(f"isinstance {n}")
    return isinstance(v, ty)


@prim("isinstance")
def _isinstance(I, v, t):
    if isinstance(v, Phi):
        return I.join(v.c, _isinstance(I, v.a, t), _isinstance(I, v.b, t))
    if isinstance(v, Opq):
        return v
    ts = t if isinstance(t, tuple) else (t,)
    return any(has_type(v, x) for x in ts)


@prim("type")
def _type(I, v):
    if isinstance(v, str):
        return Prim("str")
    if isinstance(v, PDict):
        return Prim("dict")
    if isinstance(v, (DF, LabelDF)):
        return Prim("pd.DataFrame")
    if isinstance(v, NT):
        return NTClass(v.name, list(v.fields))
    if isinstance(v, PList):
        return Prim("list")
    if isinstance(v, bool):
        return Prim("bool")
    if isinstance(v, Arr) and not v.shape:
        return Prim(v.dt)
    if isinstance(v, Inst):
        return v.cls
    raise Unsupported("type()")


@prim("hasattr")
def _hasattr(I, o, name):
    if isinstance(o, NT):
        return name in o.fields or o.cls is not None and find_cls_attr(o.cls, name) is not None
    if isinstance(o, Inst):
        return name in o.cell.state or find_cls_attr(o.cls, name) is not None
    if isinstance(o, Func):
        return name in o.attrs.state
    if isinstance(o, (Arr, Series)):
        return name in ("shape", "ndim", "dtype", "T", "size", "astype", "copy", "sum") or (name == "at" and isinstance(o, Arr) and o.lib == "jax")
    if isinstance(o, (bool, int, float)) or o is None:
        return False
    raise Unsupported("hasattr")


@prim("getattr")
def _getattr(I, o, name, *default):
    if not isinstance(name, str):
        raise Unsupported("getattr with computed name")
    try:
        return I.getattr(o, name)
    except AbsRaise as e:
        if default and e.exc == "AttributeError":
            return default[0]
        raise


@prim("setattr")
def _setattr(I, o, name, v):
    I.setattr(o, name, v)


@prim("vars")
def _vars(I, o):
    if isinstance(o, NT):
        return PDict(o.fields)
    raise Unsupported("vars")


@prim("print", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "jax.config.update", "np.testing.assert_equal", "logging.getLogger", "jax.debug.print",
      "gc.collect", "np.set_printoptions", "np.seterr")
def _noop(I, *a, **k):
    return None


@prim("any")
def _any(I, v):
    if isinstance(v, (Arr, Series)):
        return PRIMS["np.any"](I, v)
    kind, s = I.iterate(v)
    if kind != "const":
        n, el = s
        return boolval(pl.binder("any", lambda k: I.truth(el(k)), n))
    p = ZERO
    for x in s:
        p = b_or(p, I.truth(x))
    return boolval(p)


@prim("all")
def _all(I, v):
    if isinstance(v, (Arr, Series)):
        return PRIMS["np.all"](I, v)
    kind, s = I.iterate(v)
    if kind != "const":
        n, el = s
        return boolval(ONE - pl.binder("any", lambda k: ONE - I.truth(el(k)), n))
    p = ONE
    for x in s:
        p = pmul(p, I.truth(x))
    return boolval(p)


@prim("map")
def _map(I, f, *seqs):
    its = [I.iterate(s) for s in seqs]
    if all(k == "const" for k, _ in its):
        m = min(len(s) for _, s in its)
        return PList([I.call(f, [s[i] for _, s in its], {}) for i in range(m)])
    z = zip_iter(I, seqs)
    return SymIter(z.n, lambda k: I.call(f, list(z.el(k)), {}))


@prim("filter")
def _filter(I, f, seq):
    kind, s = I.iterate(seq)
    out = []
    for x in s:
        c = I.truth(I.call(f, [x], {}) if f is not None else x)
        if c is ONE:
            out.append(x)
        elif c is not ZERO:
            raise Unsupported("symbolic filter")
    return PList(out)


@prim("round", "np.round", "np.around", "np.rint")
def _round(I, v, decimals=0, ndigits=None):
    a = to_arr(I, v)
    decimals = decimals if ndigits is None else ndigits
    if a.dt in ("int", "bool"):
        return a
    return ew(lambda p: p if p.isint() and const_int(decimals) == 0 else pl.uf("round", p, const_int(decimals) or 0), a)


@prim("divmod")
def _divmod(I, a, b):
    return (I.binop("floordiv", a, b), I.binop("mod", a, b))


@prim("pow", "operator.pow")
def _pow(I, a, b):
    return I.binop("pow", a, b)


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div")):
    PRIMS["operator." + _n] = lambda I, a, b, _o=_o: I.binop(_o, a, b)


@prim("operator.itemgetter")
def _itemgetter(I, *ks):
    return PyFn("itemgetter", lambda I, a, k: I.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(I.getitem(a[0], x) for x in ks))


@prim("operator.attrgetter")
def _attrgetter(I, n):
    return PyFn("attrgetter", lambda I, a, k: I.getattr(a[0], n))


@prim("slice")
def _slice(I, *a):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@prim("callable")
def _callable(I, v):
    return isinstance(v, (Func, Prim, PyFn, Partial, Bound, ClassObj, NTClass))


@prim("id", "hash")
def _id(I, v):
    return Opq("identity")


@prim("iter")
def _iter(I, v):
    return v


@prim("next")
def _next(I, v, *d):
    kind, s = I.iterate(v)
    if kind == "const":
        if not s:
            if d:
                return d[0]
            raise AbsRaise("StopIteration", "", I.where())
        return s[0]
    return s[1](ZERO)


@prim("open")
def _open(I, name, *a, **k):
    return Sym(("path:" if not isinstance(name, str) else "file:") + (name if isinstance(name, str) else getattr(name, "name", "?")))


@prim("yaml.load", "yaml.safe_load", "yaml.full_load", "json.load", "yaml.unsafe_load")
def _yaml(I, h, *a, **k):
    n = h.name.split(":", 1)[1] if isinstance(h, Sym) and ":" in h.name else h
    f = I.files.get(n)
    if f is None:
        raise Unsupported(f"file {n}")
    return f()


@prim("pathlib.Path", "os.path.join", "os.path.abspath", "os.fspath", "os.getcwd", "os.chdir", "pathlib.PurePath")
def _path(I, *a):
    if len(a) == 1 and isinstance(a[0], str):
        return a[0]
    return Sym("path")


@method("Sym", "absolute", "resolve", "format", "strip", "lower", "upper", "read", "read_text", "close", "joinpath", "as_posix", "exists")
def _symm(I, o, *a, **k):
    return Sym(o.name)


# ------------------------------------------------------------------ copy
def deep(v, shallow=False):
    if isinstance(v, Arr):
        if not v.shape:
            return v
        r = Arr(v.shape, v.fn(), v.dt, v.lib)
        return r
    if isinstance(v, PList):
        return PList([x if shallow else deep(x) for x in v.items])
    if isinstance(v, PDict):
        return PDict({k: (x if shallow else deep(x)) for k, x in v.d.items()}, missing=v.missing)
    if isinstance(v, PSet):
        return PSet(v.items)
    if isinstance(v, tuple):
        return v if shallow else tuple(deep(x) for x in v)
    if isinstance(v, NT):
        return v if shallow else NT(v.name, {k: deep(x) for k, x in v.fields.items()}, v.cls)
    if isinstance(v, DF):
        r = DF({k: deep(x) for k, x in v.cols.items()}, v.n, index=v.index, meta=dict(v.meta))
        return r
    if isinstance(v, Series):
        return Series(deep(v.arr), v.index, v.name)
    if isinstance(v, LabelDF):
        return LabelDF(v.rows, v.col, v.names)
    if isinstance(v, LabelSeries):
        return LabelSeries(v.rows, v.names)
    if isinstance(v, Seg):
        return Seg(v.n, v.k, tuple(deep(x) for x in v.items))
    if isinstance(v, Phi):
        return Phi(v.c, deep(v.a, shallow), deep(v.b, shallow))
    if isinstance(v, Inst):
        r = Inst(v.cls)
        r.cell.state = {k: (x if shallow else deep(x)) for k, x in v.cell.state.items()}
        return r
    return v


@prim("copy.deepcopy")
def _deepcopy(I, v, memo=None):
    return deep(v)


@prim("copy.copy")
def _copy(I, v):
    return deep(v, True)


# ------------------------------------------------------------------ functools, collections
@prim("functools.partial", "jax.tree_util.Partial")
def _partial(I, f, *a, **k):
    return Partial(f, list(a), k)


@prim("functools.lru_cache", "functools.cache")
def _lru(I, *a, **k):
    from .lib import memoised
    if a and isinstance(a[0], Func):
        return memoised(I, a[0])

    def dec(I, args, kw):
        if not isinstance(args[0], Func):
            raise Unsupported("cache of a library function")
        return memoised(I, args[0])
    return PyFn("lru_cache", dec)


@prim("functools.wraps")
def _wraps(I, f):
    return PyFn("wraps", lambda I, a, k: a[0])


@prim("functools.reduce")
def _reduce(I, f, seq, *init):
    kind, s = I.iterate(seq)
    if kind != "const":
        raise Unsupported("reduce over symbolic sequence")
    s = list(s)
    acc = init[0] if init else s.pop(0)
    for x in s:
        acc = I.call(f, [acc, x], {})
    return acc


@prim("collections.namedtuple")
def _namedtuple(I, name, fields, **k):
    if isinstance(fields, str):
        names = fields.replace(",", " ").split()
    else:
        kind, s = I.iterate(fields)
        names = list(s)
    if len(set(names)) != len(names):
        raise AbsRaise("ValueError", "duplicate field names", I.where())
    return NTClass(name, names)


@prim("collections.OrderedDict", "types.SimpleNamespace")
def _od(I, v=None, **kw):
    return _dict(I, v, **kw)


def _simplens(I, **kw):
    return NT("namespace", kw)


PRIMS["types.SimpleNamespace"] = _simplens


@prim("collections.defaultdict")
def _dd(I, f=None, d=None):
    out = PDict(d.d if isinstance(d, PDict) else {})
    if f is not None:
        def missing(k):
            v = I.call(f, [], {})
            out.cell.set({**out.d, k: v})
            return v
        out.missing = missing
    return out


@prim("itertools.product")
def _product(I, *seqs, repeat=1):
    lists = []
    for s in seqs:
        kind, x = I.iterate(s)
        lists.append(x)
    import itertools
    n = const_int(repeat)
    if n is None:
        raise Unsupported("product with a symbolic number of repetitions")
    if any(isinstance(x, tuple) for x in lists):
        parts = []
        for x in lists * n:
            if isinstance(x, tuple):
                parts.append(x)
            else:
                if not all(is_num(v) for v in x):
                    raise Unsupported("product of a symbolic and a non-numeric sequence")
                arr = stack_arrs([to_arr(I, v) for v in x])
                parts.append((C(len(x)), lambda k, arr=arr: V.getitem(arr, scalar(k))))
        total = ONE
        for m, _ in parts:
            total = pmul(total, m)

        def el(k):
            out = []
            for i, (m, f) in reversed(list(enumerate(parts))):
                k, r = divmod_p(k, m) if i else (k, k)
                out.append(f(r))
            return tuple(reversed(out))
        return SymIter(total, el)
    return PList(list(itertools.product(*lists, repeat=n)))


@prim("itertools.chain")
def _chain(I, *seqs):
    out = []
    for s in seqs:
        if isinstance(s, PList):
            out.extend(s.items)
            continue
        kind, x = I.iterate(s)
        if kind != "const":
            raise Unsupported("chain of symbolic sequences")
        out.extend(x)
    return PList(out)


def _chain_from(I, seqs):
    if isinstance(seqs, PList):
        def flat(items):
            out = []
            for x in items:
                if isinstance(x, Seg):
                    out.append(Seg(x.n, x.k, tuple(flat(x.items))))
                elif isinstance(x, PList):
                    out.extend(x.items)
                else:
                    raise Unsupported("chain.from_iterable")
            return out
        return PList(flat(seqs.items))
    raise Unsupported("chain.from_iterable")


PRIMS["itertools.chain.from_iterable"] = _chain_from


# ------------------------------------------------------------------ container methods
@method("PDict", "keys", "__iter__")
def _keys(I, d):
    return PList(list(d.d))


@method("PDict", "values")
def _values(I, d):
    return PList(list(d.d.values()))


@method("PDict", "items")
def _items(I, d):
    return PList([(scal(k), v) for k, v in d.d.items()])


def scal(k):
    return scalar(C(k), "int") if isinstance(k, int) and not isinstance(k, bool) else k


@method("PDict", "get")
def _get(I, d, k, default=None):
    k = I.hashable(k, d)
    if k in d.d:
        here = I.has_key(d.cell, k, d.d[k])
        return d.d[k] if here is ONE else I.join(here, d.d[k], default)
    return d.missing(k) if d.missing else default


@method("PDict", "copy")
def _dcopy(I, d):
    r = PDict(d.d, missing=d.missing)
    for k, v in d.d.items():
        m = I.maybe.get((id(d.cell), k))
        if m is not None:
            I.maybe[id(r.cell), k] = (m[0], v, r.cell)
    return r


@method("PDict", "update")
def _update(I, d, o=None, **kw):
    new = dict(d.d)
    if o is not None:
        new.update(_dict(I, o).d)
    new.update(kw)
    I.on_mutate(d.cell, "update")
    d.cell.set(new)


@method("PDict", "pop")
def _dpop(I, d, k, *default):
    k = I.hashable(k, d)
    if k in d.d:
        new = dict(d.d)
        v = new.pop(k)
        I.on_mutate(d.cell, f"pop {k!r}")
        d.cell.set(new)
        return v
    if default:
        return default[0]
    raise AbsRaise("KeyError", repr(k), I.where())


@method("PDict", "setdefault")
def _setdefault(I, d, k, v=None):
    k = I.hashable(k, d)
    if k not in d.d:
        I.on_mutate(d.cell, f"setdefault {k!r}")
        new = dict(d.d)
        new[k] = v
        d.cell.set(new)
    else:
        here = I.has_key(d.cell, k, d.d[k])
        if here is not ONE:
            d.cell.set({**d.d, k: I.join(here, d.d[k], v)})
    return d.d[k]


@method("PDict", "clear")
def _dclear(I, d):
    I.on_mutate(d.cell, "clear")
    d.cell.set({})


@method("PList", "append")
def _append(I, l, v):
    I.on_mutate(l.cell, "append")
    l.cell.set(l.items + (v,))


@method("PList", "extend")
def _extend(I, l, v):
    I.on_mutate(l.cell, "extend")
    if isinstance(v, PList):
        l.cell.set(l.items + v.items)
        return
    kind, s = I.iterate(v)
    if kind == "const":
        l.cell.set(l.items + tuple(s))
    else:
        n, el = s
        k = fresh_index(n, "c")
        l.cell.set(l.items + (Seg(n, k, (el(k),)),))


@method("PList", "pop")
def _lpop(I, l, i=-1):
    i = const_int(i)
    if i is None or not l.simple():
        raise Unsupported("list.pop")
    items = list(l.items)
    v = items.pop(i)
    I.on_mutate(l.cell, "pop")
    l.cell.set(tuple(items))
    return v


@method("PList", "insert")
def _insert(I, l, i, v):
    i = const_int(i)
    if i is None or (not l.simple() and i != 0):
        raise Unsupported("list.insert")
    items = list(l.items)
    items.insert(i, v)
    I.on_mutate(l.cell, "insert")
    l.cell.set(tuple(items))


@method("PList", "sort")
def _lsort(I, l, key=None, reverse=False):
    r = PRIMS["sorted"](I, l, key=key, reverse=reverse)
    I.on_mutate(l.cell, "sort")
    l.cell.set(r.items)


@method("PList", "reverse")
def _lrev(I, l):
    if not l.simple():
        # a single loop segment reverses by index
        if len(l.items) == 1 and isinstance(l.items[0], Seg) and l.items[0].k is not None:
            s = l.items[0]
            kid = single_atom(s.k).id
            k2 = fresh_index(s.n, "c")
            items = tuple(I.subst_value(x, {kid: s.n - 1 - k2}) for x in s.items)[::-1]
            I.on_mutate(l.cell, "reverse")
            l.cell.set((Seg(s.n, k2, items),))
            return
        raise Unsupported("list.reverse")
    I.on_mutate(l.cell, "reverse")
    l.cell.set(l.items[::-1])


@method("PList", "copy")
def _lcopy(I, l):
    return PList(l.items)


@method("PList", "index")
def _lindex(I, l, v):
    for i, x in enumerate(l.items):
        if I.truth(compare_vals(I, "eq", x, v)) is ONE:
            return scalar(C(i), "int")
    raise Unsupported("list.index")


@method("tuple", "index")
def _tindex(I, l, v):
    return _lindex(I, PList(l), v)


@method("PList", "count")
def _lcount(I, l, v):
    p = ZERO
    for x in l.items:
        p = p + I.truth(compare_vals(I, "eq", x, v))
    return scalar(p, "int")


@method("PSet", "add")
def _sadd(I, s, v):
    s.items.append(v)


@method("NT", "_replace")
def _replace(I, o, **kw):
    for k in kw:
        if k not in o.fields:
            raise AbsRaise("ValueError", f"unexpected field {k}", I.where())
    return NT(o.name, {**o.fields, **kw}, o.cls)


@method("NT", "_asdict")
def _asdict(I, o):
    return PDict(o.fields)


def py_of(x):
    """plain python value of a constant, or MISSING"""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, tuple):
        r = tuple(py_of(q) for q in x)
        return MISSING if MISSING in r else r
    if is_num(x):
        c = const_int(x)
        return MISSING if c is None else c
    return MISSING


def of_py(r):
    if isinstance(r, bool) or r is None or isinstance(r, str):
        return r
    if isinstance(r, int):
        return scalar(C(r), "int")
    if isinstance(r, list):
        return PList([of_py(q) for q in r])
    if isinstance(r, tuple):
        return tuple(of_py(q) for q in r)
    return r


def _strm(name):
    def f(I, s, *a, **k):
        if name == "join":
            kind, seq = I.iterate(a[0])
            if kind == "const" and all(isinstance(x, str) for x in seq):
                return s.join(seq)
            return Sym("str")
        v, kv = [py_of(x) for x in a], {n: py_of(x) for n, x in k.items()}
        if any(x is MISSING for x in v) or any(x is MISSING for x in kv.values()):
            return Sym("str")
        try:
            return of_py(getattr(s, name)(*v, **kv))
        except (ValueError, TypeError) as e:
            raise AbsRaise(type(e).__name__, str(e), I.where())
    return f


def _unbound(name):
    def f(I, s, *a, **k):
        if not isinstance(s, str):
            raise Unsupported(f"str.{name} of {type(s).__name__}")
        return METHODS["str", name](I, s, *a, **k)
    return f


for _n in ("startswith", "endswith", "split", "replace", "lower", "upper", "strip", "lstrip", "rstrip", "join", "find", "rsplit", "removeprefix", "removesuffix",
           "title", "capitalize", "isdigit", "count", "isnumeric", "isdecimal", "isalpha", "isalnum", "partition", "rpartition", "index", "rindex", "rfind", "zfill",
           "splitlines", "casefold", "swapcase", "isupper", "islower", "ljust", "rjust", "center"):
    from .lib import METHODS
    METHODS["str", _n] = _strm(_n)
    PRIMS["str." + _n] = _unbound(_n)


class ReMatch:
    def __init__(self, m):
        self.m = m


def _re(name):
    import re

    def f(I, pat, *a, **k):
        if isinstance(pat, ReMatch):
            pat = pat.m
        v = [py_of(x) for x in a]
        if (not isinstance(pat, (str, re.Pattern))) or any(x is MISSING for x in v) or k:
            raise Unsupported(f"re.{name} on symbolic text")
        r = getattr(re, name)(pat, *v)
        return ReMatch(r) if isinstance(r, (re.Match, re.Pattern)) else of_py(r)
    return f


for _n in ("search", "match", "fullmatch", "findall", "sub", "split", "compile"):
    PRIMS["re." + _n] = _re(_n)


def _rem(name):
    def f(I, o, *a):
        v = [py_of(x) for x in a]
        if any(x is MISSING for x in v):
            raise Unsupported(f"match {name} on symbolic text")
        r = getattr(o.m, name)(*v)
        return ReMatch(r) if hasattr(r, "group") else of_py(r)
    return f


for _n in ("group", "groups", "start", "end", "search", "match", "fullmatch", "findall", "sub", "split"):
    METHODS["ReMatch", _n] = _rem(_n)


@method("str", "format")
def _fmt(I, s, *a, **k):
    vals = []
    for x in a:
        if isinstance(x, str):
            vals.append(x)
        elif is_num(x) and const_int(x) is not None:
            vals.append(const_int(x))
        else:
            return Sym("str")
    kk = {}
    for n, x in k.items():
        if isinstance(x, str):
            kk[n] = x
        elif is_num(x) and const_int(x) is not None:
            kk[n] = const_int(x)
        else:
            return Sym("str")
    return s.format(*vals, **kk)


def _uint(name):
    def f(I, v=0):
        return astype(to_arr(I, v), name)
    prim("np." + name)(f)


for _u in V.UNSIGNED:
    _uint(_u)


# ------------------------------------------------------------------ classes
@prim("dataclasses.dataclass")
def _dataclass(I, cls=None, **kw):
    if cls is not None:
        raise Unsupported("dataclass applied to a class object")
    return Prim("dataclasses.dataclass")


@prim("dataclasses.field")
def _field(I, **kw):
    return FieldSpec(kw)


@prim("dataclasses.replace", "copy.replace")
def _dc_replace(I, o, **kw):
    if isinstance(o, NT):
        return NT(o.name, {**o.fields, **kw}, o.cls)
    if not isinstance(o, Inst) or o.cls.kind != "dataclass":
        raise Unsupported("replace")
    return I.instantiate(o.cls, [], {**o.cell.state, **kw})


@prim("dataclasses.asdict")
def _asdict(I, o):
    if not isinstance(o, Inst) or any(isinstance(v, Inst) for v in o.cell.state.values()):
        raise Unsupported("asdict")
    return PDict({k: deep(v) for k, v in o.cell.state.items()})


@prim("dataclasses.astuple")
def _astuple(I, o):
    if not isinstance(o, Inst) or any(isinstance(v, Inst) for v in o.cell.state.values()):
        raise Unsupported("astuple")
    return tuple(deep(v) for v in o.cell.state.values())


@prim("enum.auto")
def _auto(I):
    return EnumAuto()


@prim("typing.cast")
def _cast(I, t, v):
    return v


# ------------------------------------------------------------------ iteration helpers
@prim("itertools.accumulate")
def _accumulate(I, seq, func=None, initial=None):
    kind, s = I.iterate(seq)
    if kind != "const":
        raise Unsupported("accumulate over a symbolic sequence")
    out = [] if initial is None else [initial]
    for x in s:
        out.append(x if not out else (I.binop("add", out[-1], x) if func is None else I.call(func, [out[-1], x], {})))
    return PList(out)


@prim("itertools.starmap")
def _starmap(I, f, seq):
    kind, s = I.iterate(seq)
    if kind == "const":
        return PList([I.call(f, I.iterate(x)[1], {}) for x in s])
    n, el = s
    return SymIter(n, lambda k: I.call(f, I.iterate(el(k))[1], {}))


@prim("itertools.repeat")
def _irepeat(I, v, times=None):
    n = const_int(times) if times is not None else None
    if n is None:
        raise Unsupported("endless repeat")
    return PList([v] * n)


@prim("itertools.islice")
def _islice(I, seq, *b):
    kind, s = I.iterate(seq)
    c = [None if x is None else const_int(x) for x in b]
    if kind != "const" or any(x is None and y is not None for x, y in zip(c, b)):
        raise Unsupported("islice")
    return PList(list(s)[slice(*c)])


@prim("itertools.pairwise")
def _pairwise(I, seq):
    kind, s = I.iterate(seq)
    if kind == "const":
        return PList([(a, b) for a, b in zip(s, list(s)[1:])])
    n, el = s
    return SymIter(n - 1, lambda k: (el(k), el(k + 1)))


@prim("itertools.combinations")
def _combinations(I, seq, r):
    import itertools
    kind, s = I.iterate(seq)
    if kind != "const" or const_int(r) is None:
        raise Unsupported("combinations")
    return PList(list(itertools.combinations(s, const_int(r))))


@prim("itertools.permutations")
def _permutations(I, seq, r=None):
    import itertools
    kind, s = I.iterate(seq)
    if kind != "const" or r is not None and const_int(r) is None:
        raise Unsupported("permutations")
    return PList(list(itertools.permutations(s, None if r is None else const_int(r))))


@prim("collections.ChainMap")
def _chainmap(I, *maps):
    if not all(isinstance(m, PDict) and m.missing is None for m in maps):
        raise Unsupported("ChainMap")
    d = {}
    for m in reversed(maps):
        d.update(m.d)
    return PDict(d)


for _n, _o in (("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge"), ("eq", "eq"), ("ne", "ne")):
    PRIMS["operator." + _n] = lambda I, a, b, _o=_o: compare_vals(I, _o, a, b)


@prim("operator.getitem")
def _op_getitem(I, o, k):
    return I.getitem(o, k)


@prim("operator.methodcaller")
def _methodcaller(I, name, *args, **kw):
    return PyFn("methodcaller", lambda I, a, k: I.call(I.getattr(a[0], name), list(args), dict(kw)))


@method("PList", "remove", "clear", "__delitem__")
def plist_unmodelled(I, o, *a):
    I.havoc_value(o, "list method")
    raise Unsupported("list method")


@method("PDict", "popitem")
def pdict_popitem(I, o):
    I.havoc_value(o, "popitem")
    raise Unsupported("popitem")
