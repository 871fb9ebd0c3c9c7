"""Abstract values: arrays with symbolic shape and index function, Python containers, frames, functions."""
from .poly import *
from . import poly as pl


class Unsupported(Exception):
    """a construct the abstraction does not model; turned into an opaque value by the interpreter"""


class AbsRaise(Exception):
    """the analysed program raises"""

    def __init__(self, exc, msg="", loc=None):
        super().__init__(f"{exc}: {msg}")
        self.exc, self.msg, self.loc = exc, msg, loc


CTX = None     # current interpreter (write log, events, location)


def set_ctx(c):
    global CTX
    CTX = c


class Cell:
    """mutable thing with one state slot; writes go through the interpreter's undo log"""
    __slots__ = ("state", "origin", "born", "alts")

    def __init__(self, state, origin=None):
        if origin is None and CTX is not None:
            origin = CTX.default_origin
        self.state, self.origin = state, origin
        self.born = CTX.tick() if CTX is not None else 0
        self.alts = None

    def set(self, new):
        if CTX is not None:
            CTX.on_write(self, self.state)
        self.state = new


def memo(fn):
    d = {}

    def g(*idx):
        r = d.get(idx)
        if r is None:
            r = fn(*idx)
            if not isinstance(r, P):
                r = C(r)
            d[idx] = r
        return r
    return g


DT_ORDER = {"bool": 0, "int8": 1, "uint8": 1.2, "int16": 1.5, "uint16": 1.7, "uint32": 1.8, "uint64": 1.9, "int": 2, "float32": 2.5, "float": 3, "object": 4}
UNSIGNED = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}
NARROW = ("int8", "int16", "float32") + tuple(UNSIGNED)
INTS = ("int", "bool", "int8", "int16") + tuple(UNSIGNED)


class Arr:
    """n-d array (or scalar, shape ()).  element(*idx) -> P"""
    __slots__ = ("shape", "buf", "tobase", "frombase", "dt", "lib", "loc", "meta")

    def __init__(self, shape, fn=None, dt="float", lib="np", buf=None, tobase=None, frombase=None, origin=None, meta=None):
        self.shape = tuple(C(s) for s in shape)
        if buf is None:
            buf = Cell(memo(fn), origin)
        self.buf, self.tobase, self.frombase, self.dt, self.lib = buf, tobase, frombase, dt, lib
        self.loc = CTX.where() if CTX is not None else None
        self.meta = meta

    @property
    def ndim(self):
        return len(self.shape)

    def fn(self):
        """pure element function of the current content"""
        f = self.buf.state
        if self.tobase is None:
            return f
        tb = self.tobase
        return lambda *i: f(*tb(*i))

    def at(self, *idx):
        return self.fn()(*[C(i) for i in idx])

    def p(self):
        if self.shape:
            if all(s is ONE for s in self.shape):
                return self.at(*([0] * self.ndim))
            raise Unsupported("array used as scalar")
        return self.fn()()

    def copy(self, **kw):
        return Arr(kw.get("shape", self.shape), self.fn(), kw.get("dt", self.dt), kw.get("lib", self.lib))

    def store(self, cond, val):
        """element i := val(i) where cond(i)"""
        old = self.buf.state
        fb = self.frombase
        if fb is None:
            if self.tobase is not None:
                raise Unsupported("store through a derived view")

            def new(*b):
                c = cond(*b)
                if c is ZERO:
                    return old(*b)
                if c is ONE:
                    return val(*b)
                return tidy(select(c, val(*b), old(*b)))
        else:
            def new(*b):
                c0, vi = fb(*b)
                if c0 is ZERO:
                    return old(*b)
                c = pmul(c0, cond(*vi))
                if c is ZERO:
                    return old(*b)
                return tidy(select(c, val(*vi), old(*b)))
        if CTX is not None:
            CTX.on_mutate(self.buf, "array element store")
        self.buf.set(memo(new))
        for g, other in self.buf.alts or ():
            if fb is None:
                other.store(lambda *b, g=g: pmul(g, cond(*b)), val)
            else:
                def where(*b, g=g):
                    c0, vi = fb(*b)
                    return c0 if c0 is ZERO else pmul(pmul(g, c0), cond(*vi))
                other.store(where, lambda *b: val(*fb(*b)[1]))

    def __repr__(self):
        return f"Arr{tuple(str(s) for s in self.shape)}:{self.dt}:{self.lib}"


def scalar(p, dt=None, lib="py"):
    p = C(p)
    if dt is None:
        dt = "int" if p.isint() else "float"
    return Arr((), lambda: p, dt, lib)


class Seg:
    """items appended by a summarised loop: for index k in [0,n): items(k)"""
    __slots__ = ("n", "k", "items")

    def __init__(self, n, k, items):
        self.n, self.k, self.items = n, k, items      # items: tuple of values/Seg mentioning leaf k


class PList:
    def __init__(self, items=(), origin=None):
        self.cell = Cell(tuple(items), origin)

    @property
    def items(self):
        return self.cell.state

    def simple(self):
        return not any(isinstance(x, Seg) for x in self.items)

    def __repr__(self):
        return f"PList({list(self.items)!r})"


class LVec(PList):
    """vector of labels (an index level, an array of strings): operations on it are elementwise"""


class PDict:
    def __init__(self, d=None, origin=None, missing=None):
        self.cell = Cell(dict(d or {}), origin)
        self.missing = missing      # function key -> value for open dictionaries

    @property
    def d(self):
        return self.cell.state

    def __repr__(self):
        return f"PDict({self.d!r})"


class SymKey:
    """symbolic number used as a dictionary key: equal graphs are the same key, others are taken to be different"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, SymKey) and o.p is self.p

    def __hash__(self):
        return hash(self.p.id)

    def __repr__(self):
        return f"<{self.p}>"


class PSet:
    def __init__(self, items=()):
        from .lib import distinct
        self.items = distinct(items)


class NT:
    """namedtuple-like object"""

    def __init__(self, name, fields, cls=None):
        self.name, self.fields, self.cls = name, dict(fields), cls

    def __repr__(self):
        return f"NT({self.name}:{list(self.fields)})"


class NTClass:
    def __init__(self, name, fields):
        self.name, self.fields = name, list(fields)


class Rng:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = C(start), C(stop), C(step)


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Func:
    def __init__(self, node, scope, module, defaults, kwdefaults, name, qual=None, decorators=()):
        self.node, self.scope, self.module, self.defaults, self.kwdefaults = node, scope, module, defaults, kwdefaults
        self.name = name
        self.attrs = Cell({})
        self.decorators = decorators

    def __repr__(self):
        return f"<func {self.module.name}.{self.name}>"


class Prim:
    """library function or type by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<prim {self.name}>"


class PyFn:
    """python-implemented abstract callable"""

    def __init__(self, name, fn, captured=()):
        self.name, self.fn, self.captured = name, fn, captured

    def __repr__(self):
        return f"<pyfn {self.name}>"


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<method {self.name} of {type(self.obj).__name__}>"


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Mod:
    def __init__(self, name):
        self.name = name


class ClassObj:
    """a class of the program; kind is plain, dataclass, namedtuple, enum or other (a base outside the program)"""

    def __init__(self, name, scope, bases, module, node=None, kind="plain"):
        self.name, self.scope, self.bases, self.module = name, scope, bases, module
        self.node, self.kind = node, kind
        self.attrs = Cell({}, origin=f"class:{name}")

    def mro(self):
        yield self
        for b in self.bases:
            if isinstance(b, ClassObj):
                yield from b.mro()


class ClassMember:
    """a function of a class body under staticmethod, classmethod or property"""

    def __init__(self, how, fn):
        self.how, self.fn = how, fn


class FieldSpec:
    """dataclasses.field(...)"""

    def __init__(self, kwargs):
        self.kwargs = kwargs


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.cell = Cell({})


class Phi:
    """gated non-numeric value: a when c else b"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Phi({self.c},{self.a!r},{self.b!r})"


class Opq:
    """value of an unmodelled construct"""

    def __init__(self, why, deps=()):
        self.why = why
        self.deps = tuple(deps)
        if CTX is not None:
            CTX.unmodelled.append((why, CTX.where()))

    def __repr__(self):
        return f"<opaque {self.why}>"


class Idx:
    """frame index object"""

    def __init__(self, levels, names):
        self.levels, self.names = levels, names    # list of Arr or label lists


class DF:
    """data frame with named numeric columns over one row dimension"""

    def __init__(self, cols, n, origin=None, index=None, meta=None):
        self.cell = Cell((dict(cols), C(n)), origin)
        self.index = index          # dict name -> Arr for index levels, or None
        self.meta = meta or {}

    @property
    def cols(self):
        return self.cell.state[0]

    @property
    def n(self):
        return self.cell.state[1]

    def with_cols(self, cols):
        return DF(cols, self.n, index=self.index, meta=dict(self.meta))

    def __repr__(self):
        return f"DF({list(self.cols)}, n={self.n})"


class Series:
    def __init__(self, arr, index=None, name=None, labels=None):
        self.arr, self.index, self.name, self.labels = arr, index, name, labels


class LabelDF:
    """frame with concrete row labels (parameter table): rows: dict (tuple label) -> P, one column"""

    def __init__(self, rows, col, names, origin=None):
        self.cell = Cell(dict(rows), origin)
        self.col, self.names = col, names

    @property
    def rows(self):
        return self.cell.state


class LabelSeries:
    def __init__(self, rows, names=None):
        self.rows, self.names = dict(rows), names


MISSING = object()


def is_num(v):
    return isinstance(v, (Arr, bool, int, float, F))


def arr_of(v, lib="py"):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return scalar(ONE if v else ZERO, "bool", lib)
    if isinstance(v, int):
        return scalar(C(v), "int", lib)
    if isinstance(v, float):
        import math as _m
        if _m.isnan(v):
            return scalar(leaf("nan"), "float", lib)
        if _m.isinf(v):
            return scalar(leaf("inf") if v > 0 else -leaf("inf"), "float", lib)
        return scalar(C(v), "float", lib)
    if isinstance(v, F):
        return scalar(C(v), "float", lib)
    if isinstance(v, P):
        return scalar(v, None, lib)
    raise Unsupported(f"not numeric: {type(v).__name__}")


declare("nan")
declare("inf", pos=True, lb=F(10) ** 30)


def promote(*dts):
    r = max(dts, key=lambda d: DT_ORDER.get(d, 4))
    return "float" if r == "float32" and "int" in dts else r


def dim_eq(a, b):
    return a is b or not (a - b).t


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(1, n + 1):
        d = ONE
        for s in shapes:
            if len(s) >= k:
                x = s[-k]
                if x is ONE:
                    continue
                if d is ONE:
                    d = x
                elif not dim_eq(d, x):
                    if d.is_const() and x.is_const():
                        raise AbsRaise("ValueError", f"shapes do not broadcast: {d} vs {x}", CTX.where())
                    if CTX is not None:
                        CTX.assume(f"dimension {d} == {x}")
                    if x.is_const():
                        d = x
        out.append(d)
    return tuple(reversed(out))


def bidx(shape, out_ndim, idx):
    """index of an operand of the given shape for a broadcast result index"""
    off = out_ndim - len(shape)
    return tuple(ZERO if shape[k] is ONE else idx[off + k] for k in range(len(shape)))


def ew(fn, *args, dt=None, lib=None):
    """elementwise lifted function on P"""
    arrs = [arr_of(a) for a in args]
    shape = broadcast_shapes(*[a.shape for a in arrs])
    fs = [(a.fn(), a.shape) for a in arrs]
    nd = len(shape)

    def f(*idx):
        return fn(*[g(*bidx(s, nd, idx)) for g, s in fs])
    if dt is None:
        dt = promote(*[a.dt for a in arrs])
    if lib is None:
        libs = [a.lib for a in arrs]
        lib = "jax" if "jax" in libs else ("np" if "np" in libs else "py")
    return Arr(shape, f, dt, lib)


def wrap_neg(i, dim):
    if i.is_const():
        return i if i.const() >= 0 else dim + i
    if nonneg(i):
        return i
    if nonneg(-i - 1):
        return i + dim
    if nonneg(i + 64):
        return select(ge(i), i, i + dim)
    return i


def const_int(v):
    """python int when v is a constant integer, else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, P):
        return int(v.const()) if v.is_const() and v.const().denominator == 1 else None
    if isinstance(v, Arr) and not v.shape:
        return const_int(v.p())
    return None


def stack_select(i, elems):
    """elems[i] for a constant-length python list of P thunks and symbolic i"""
    ci = const_int(i)
    if ci is not None:
        return elems[ci]()
    vals = [e() for e in elems]
    acc = vals[-1]
    if all(v is acc for v in vals):
        return acc
    return psum([pmul(eq(i - k), subst(v, implied(eq(i - k)) or {})) for k, v in enumerate(vals)])


# ------------------------------------------------------------------ indexing
def norm_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    used = 0
    for k in key:
        if k is None:
            continue
        if k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.dt == "bool" and k.ndim > 0:
            used += k.ndim
        else:
            used += 1
    seen = False
    for k in key:
        if k is Ellipsis:
            seen = True
            out.extend([Slice(None, None, None)] * (ndim - used))
        else:
            out.append(k)
    if not seen:
        out.extend([Slice(None, None, None)] * (ndim - used))
    if used > ndim:
        raise AbsRaise("IndexError", "too many indices", CTX.where())
    return out


def slice_params(s, dim):
    """start, length, step (P, P, int) for a slice over dim"""
    st = 1 if s.step is None else const_int(s.step)
    if st is None or st == 0:
        raise Unsupported("slice step")

    def bound(v, default):
        if v is None:
            return default
        p = v.p() if isinstance(v, Arr) else C(v)
        c = const_int(p)
        if c is not None and c < 0:
            p = dim + c
        elif c is None and nonneg(-p - 1):
            p = dim + p
        return p
    if st > 0:
        a = bound(s.start, ZERO)
        b = bound(s.stop, dim)
        b = clamp_le(b, dim)
        if s.start is not None:
            a = clamp_le(a, dim)
        ln = b - a
        if ln.is_const() and ln.const() < 0:
            ln = ZERO
        if st != 1:
            ln = divmod_p(ln + (st - 1), C(st))[0]
        return a, ln, st
    a = bound(s.start, dim - 1)
    b = bound(s.stop, C(-1)) if s.stop is not None else C(-1)
    ln = a - b
    if st != -1:
        ln = divmod_p(ln + (-st - 1), C(-st))[0]
    return a, ln, st


def clamp_le(v, dim):
    if v is dim or nonneg(dim - v):
        return v
    if nonneg(v - dim):
        return dim
    if v.is_const() and dim.is_const():
        return min(v, dim, key=lambda q: q.const())
    if CTX is not None:
        CTX.assume(f"{v} <= {dim}")
    return v


def as_index(k):
    """classify one index: ('int', P) | ('slice', Slice) | ('new',) | ('mask', Arr) | ('arr', Arr)"""
    if k is None:
        return ("new",)
    if isinstance(k, Slice):
        return ("slice", k)
    if isinstance(k, bool):
        raise Unsupported("bool index")
    if isinstance(k, (PList, tuple, Rng)):
        k = CTX.to_arr(k)
    if isinstance(k, Series):
        k = k.arr
    if is_num(k):
        a = arr_of(k)
        if a.dt == "bool" and a.ndim:
            return ("mask", a)
        if a.ndim == 0:
            return ("int", a.p())
        return ("arr", a)
    raise Unsupported(f"index of type {type(k).__name__}")


def mask_nonzero(m, n):
    """body function of a 1-d mask"""
    f = m.fn()
    return f


def getitem(a, key):
    items = [as_index(k) for k in norm_key(key, a.ndim)]
    if any(t[0] in ("mask", "arr") for t in items):
        return _adv_get(a, items)
    # basic indexing: a view
    out_shape = []
    plan = []     # per base dim: ('c', P) or ('s', outpos, start, step, len)
    d = 0
    full = True
    for t in items:
        if t[0] == "new":
            out_shape.append(ONE)
            continue
        dim = a.shape[d]
        if t[0] == "int":
            i = wrap_neg(t[1], dim)
            if a.lib == "jax" and i.is_const() and dim.is_const() and i.const() >= dim.const():
                i = dim - 1
            if i.is_const() and dim.is_const() and i.const() >= dim.const():
                raise AbsRaise("IndexError", f"index {i} out of bounds for size {dim}", CTX.where())
            plan.append(("c", i))
            full = False
        else:
            st, ln, step = slice_params(t[1], dim)
            if dim is ONE and ln is ONE:
                plan.append(("s", len(out_shape), ZERO, 1, ONE))
            else:
                plan.append(("s", len(out_shape), st, step, ln))
            if not (st is ZERO and step == 1 and ln is dim):
                full = False
            out_shape.append(ln)
        d += 1
    tb0, fb0 = a.tobase, a.frombase
    nout = len(out_shape)

    def tobase(*idx):
        b = tuple(p[1] if p[0] == "c" else (p[2] + idx[p[1]] if p[3] == 1 else p[2] + idx[p[1]] * p[3]) for p in plan)
        return tb0(*b) if tb0 else b

    def inv(*b):
        c = ONE
        idx = [ZERO] * nout
        for k, p in enumerate(plan):
            if p[0] == "c":
                c = pmul(c, eq(b[k] - p[1]))
            else:
                r = b[k] - p[2]
                if p[3] == -1:
                    r = -r
                elif p[3] != 1:
                    q, m = divmod_p(r, C(p[3]))
                    c = pmul(c, eq(m))
                    r = q
                if p[2] is not ZERO or p[3] != 1:
                    c = pmul(c, ge(r))
                if not (p[2] is ZERO and p[4] is a.shape[k]):
                    c = pmul(c, ge(p[4] - 1 - r))
                idx[p[1]] = r
        return c, tuple(idx)

    def frombase(*b):
        if fb0 is None:
            return inv(*b)
        c0, v = fb0(*b)
        c1, v2 = inv(*v)
        return pmul(c0, c1), v2
    if not out_shape:
        f = a.fn()
        b = tuple(p[1] for p in plan)
        return Arr((), lambda: f(*b), a.dt, a.lib if a.lib != "py" else "np")
    if a.lib == "jax":
        f = a.buf.state
        return Arr(out_shape, lambda *i: f(*tobase(*i)), a.dt, "jax")
    if fb0 is None and tb0 is not None:
        f = a.fn()
        return Arr(out_shape, lambda *i: f(*tobase(*i)), a.dt, a.lib)
    return Arr(out_shape, None, a.dt, a.lib, buf=a.buf, tobase=tobase, frombase=frombase)


def expand_adv(items, shape):
    """masks to nonzero index arrays; returns list with ('arr', Arr, extra)"""
    out = []
    d = 0
    for t in items:
        if t[0] == "new":
            out.append(t)
            continue
        if t[0] == "mask":
            m = t[1]
            if m.ndim != 1:
                if m.ndim == 2 and all(s.is_const() for s in m.shape):
                    raise Unsupported("2-d mask index")
                raise Unsupported("n-d mask index")
            f = m.fn()
            n = shape[d]
            body = mask_body(f, n)
            cnt = mk_count(body, n)
            out.append(("arr", Arr((cnt,), lambda k, body=body, n=n: mk_sel(body, n, k), "int"), ("mask", body, n)))
            d += 1
        elif t[0] == "arr":
            a = t[1]
            out.append(("arr", a, None))
            d += 1
        else:
            out.append(t)
            d += 1
    return out


def mask_body(f, n):
    k = fresh_index(n)
    b, bv = pl._bind(f(k), k, n)
    return (b, bv.args[0])


def mk_count(body, n):
    return pl.mk_binder("count", body[0], n, body[1])


def mk_sel(body, n, k):
    return pl.mk_binder("sel", body[0], n, body[1], k)


def mk_rank(body, n, j):
    return pl.mk_binder("rank", body[0], n, body[1], j)


def adv_layout(items, shape):
    """result layout: (outshape, plan per base dim, broadcast shape, position of broadcast dims)"""
    adv = [t for t in items if t[0] == "arr"]
    bshape = broadcast_shapes(*[t[1].shape for t in adv])
    pos = [i for i, t in enumerate(items) if t[0] in ("arr", "int")]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    out = []
    plan = []
    bpos = None
    if not contiguous:
        bpos = 0
        out.extend(bshape)
    d = 0
    for t in items:
        if t[0] == "new":
            out.append(ONE)
            continue
        dim = shape[d]
        if t[0] in ("arr", "int"):
            if contiguous and bpos is None:
                bpos = len(out)
                out.extend(bshape)
            plan.append((t[0], t[1], t[2] if t[0] == "arr" else None))
        else:
            st, ln, step = slice_params(t[1], dim)
            plan.append(("s", len(out), st, step, ln))
            out.append(ln)
        d += 1
    return tuple(out), plan, bshape, bpos


def _adv_get(a, items):
    items = expand_adv(items, a.shape)
    out, plan, bshape, bpos = adv_layout(items, a.shape)
    f = a.fn()
    nb = len(bshape)
    gs = [(p, p[1].fn(), p[1].shape) if p[0] == "arr" else (p, None, None) for p in plan]
    shape = a.shape

    def g(*idx):
        bi = idx[bpos:bpos + nb]
        b = []
        for k, (p, h, s) in enumerate(gs):
            if p[0] == "arr":
                b.append(wrap_neg(h(*bidx(s, nb, bi)), shape[k]))
            elif p[0] == "int":
                b.append(wrap_neg(p[1], shape[k]))
            else:
                b.append(p[2] + idx[p[1]] * p[3] if p[3] != 1 else p[2] + idx[p[1]])
        return f(*b)
    meta = None
    if len(items) >= 1 and items[0][0] == "arr" and items[0][2] and a.ndim == 1:
        meta = ("compress", items[0][2])
    return Arr(out, g, a.dt, a.lib if a.lib != "py" else "np", meta=meta)


def setitem(a, key, val):
    """a[key] = val (numpy semantics)"""
    items = [as_index(k) for k in norm_key(key, a.ndim)]
    v = CTX.to_arr(val)
    if not any(t[0] in ("mask", "arr") for t in items):
        view = getitem(a, key)
        if not view.shape:
            idx = []
            for t, dim in zip([t for t in items if t[0] != "new"], a.shape):
                idx.append(wrap_neg(t[1], dim))
            x = v.p()
            x = cast_p(x, v.dt, a.dt)

            def cond(*b):
                c = ONE
                for u, w in zip(b, idx):
                    c = pmul(c, eq(u - w))
                return c
            a.store(cond, lambda *b: x)
            return
        vf, vs = v.fn(), strip_ones(v.shape, len(view.shape))
        off = len(v.shape) - len(vs)
        nd = len(view.shape)
        vshape = v.shape[off:]
        dtv, dta = v.dt, a.dt
        broadcast_shapes(view.shape, vshape)
        view.store(lambda *i: ONE, lambda *i: cast_p(vf(*([ZERO] * off + list(bidx(vshape, nd, i)))), dtv, dta))
        return
    if len(items) == 1 and items[0][0] == "mask" and items[0][1].ndim == a.ndim and a.ndim > 1:
        m = items[0][1].fn()
        if v.shape:
            raise Unsupported("n-d mask store of an array")
        x = cast_p(v.p(), v.dt, a.dt)
        a.store(lambda *b: m(*b), lambda *b: x)
        return
    items = expand_adv(items, a.shape)
    out, plan, bshape, bpos = adv_layout(items, a.shape)
    nb = len(bshape)
    vf = v.fn()
    vshape = v.shape
    nd = len(out)
    broadcast_shapes(out, vshape)
    # a small constant index array: unrolled stores
    shape = a.shape
    solved = solve_adv(plan, bshape, shape)
    if solved is None:
        if nb == 1 and bshape[0].is_const() and bshape[0].const() <= 64:
            for k in range(int(bshape[0].const())):
                kk = C(k)
                conds = []
                for d, p in enumerate(plan):
                    if p[0] == "arr":
                        conds.append((d, wrap_neg(p[1].fn()(*bidx(p[1].shape, 1, (kk,))), shape[d])))
                    elif p[0] == "int":
                        conds.append((d, wrap_neg(p[1], shape[d])))

                def cond(*b, conds=conds):
                    c = ONE
                    for d, w in conds:
                        c = pmul(c, eq(b[d] - w))
                    return pmul(c, slice_conds(plan, shape, b))

                def value(*b, kk=kk):
                    idx = [None] * nd
                    idx[bpos] = kk
                    fill_slices(plan, b, idx)
                    return cast_p(vf(*bidx(vshape, nd, idx)), v.dt, a.dt)
                a.store(cond, value)
            return
        raise Unsupported("scatter with non-invertible index")

    def cond(*b):
        c, bi = solved(*b)
        return pmul(c, slice_conds(plan, shape, b))

    def value(*b):
        c, bi = solved(*b)
        idx = [None] * nd
        for k in range(nb):
            idx[bpos + k] = bi[k]
        fill_slices(plan, b, idx)
        return cast_p(vf(*bidx(vshape, nd, idx)), v.dt, a.dt)
    a.store(cond, value)


def strip_ones(shape, nd):
    s = list(shape)
    while len(s) > nd and s[0] is ONE:
        s.pop(0)
    return tuple(s)


def slice_conds(plan, shape, b):
    c = ONE
    for d, p in enumerate(plan):
        if p[0] == "s":
            if not (p[2] is ZERO and p[3] == 1 and p[4] is shape[d]):
                r = b[d] - p[2]
                if p[3] not in (1, -1):
                    q, m = divmod_p(r, C(p[3]))
                    c = pmul(c, eq(m))
                    r = q
                elif p[3] == -1:
                    r = -r
                c = pmul(c, pmul(ge(r), ge(p[4] - 1 - r)))
    return c


def fill_slices(plan, b, idx):
    for d, p in enumerate(plan):
        if p[0] == "s":
            r = b[d] - p[2]
            if p[3] == -1:
                r = -r
            elif p[3] != 1:
                r = divmod_p(r, C(p[3]))[0]
            idx[p[1]] = r
    for k, x in enumerate(idx):
        if x is None:
            idx[k] = ZERO


def solve_adv(plan, bshape, shape):
    """inverse of the index map: function of base index -> (cond, broadcast index); None when not invertible"""
    nb = len(bshape)
    ks = [fresh_index(n) for n in bshape]
    kids = [single_atom(k).id for k in ks]
    exprs = []
    for d, p in enumerate(plan):
        if p[0] == "arr":
            e = wrap_neg(p[1].fn()(*bidx(p[1].shape, nb, ks)), shape[d])
            exprs.append((d, e, p[2]))
        elif p[0] == "int":
            exprs.append((d, wrap_neg(p[1], shape[d]), None))
    sol = {}
    used = set()
    for d, e, info in exprs:
        dep = [i for i, kid in enumerate(kids) if kid in p_deep(e)]
        if len(dep) != 1 or dep[0] in sol:
            continue
        i = dep[0]
        s = single_atom(e)
        if s is not None and s.kind == "sel" and s.args[3] is ks[i]:
            sol[i] = (d, "sel", (s.args[0], s.args[2]), s.args[1])
            used.add(d)
            continue
        y = fresh("y", isint=True)
        r = solve_linear(e - y, kids[i])
        if r is not None:
            sol[i] = (d, "lin", r, single_atom(y).id)
            used.add(d)
    for i, n in enumerate(bshape):
        if i not in sol and n is not ONE:
            r = solve_digits([(d, e) for d, e, _ in exprs if kids[i] in p_deep(e)], ks[i], n, [k for j, k in enumerate(kids) if j != i])
            if r is None:
                return None
            sol[i] = (None, "dig", r)

    def inv(*b):
        c = ONE
        bi = []
        for i, n in enumerate(bshape):
            if i not in sol:
                bi.append(ZERO)
                continue
            s = sol[i]
            if s[1] == "dig":
                k, g = s[2](b)
                c = pmul(c, g)
                bi.append(k)
            elif s[1] == "sel":
                body, nn = s[2], s[3]
                bvs = mk_atom("bv", (body[1], nn))
                c = pmul(c, subst(body[0], {bvs.id: b[s[0]]}))
                bi.append(mk_rank(body, nn, b[s[0]]))
            else:
                k = subst(s[2], {s[3]: b[s[0]]})
                c = pmul(c, pmul(ge(k), ge(n - 1 - k)))
                bi.append(k)
        mp = dict(zip(kids, bi))
        for d, e, info in exprs:
            if d in used or any(s[1] == "dig" and d in s[2].used for s in sol.values()):
                continue
            c = pmul(c, eq(b[d] - subst(e, mp)))
        return c, bi
    return inv


def solve_one(e, D):
    """D from the value y of e(D), for an integer D in range: function of y -> (D, condition); None when not one-to-one"""
    y = fresh("y", isint=True)
    kid = single_atom(D).id
    back = single_atom(y).id
    r = solve_linear(e - y, kid)
    if r is not None:
        return lambda v: (subst(r, {back: v}), ONE)
    # two cases told apart by the value of D: select(D == d0, const, linear)
    for A in [pl.ATOMS[a] for a in p_deep(e)]:
        if A.kind != "eq" or kid not in atom_deep(A):
            continue
        d, t = A.args
        d0 = solve_linear(d - C(t), kid)
        if d0 is None:
            continue
        special = subst(subst(e, {A.id: ONE}), {kid: d0})
        rest = subst(e, {A.id: ZERO})
        if kid in p_deep(special):
            continue
        r = solve_linear(rest - y, kid)
        if r is None or not (positive(special - rest) or positive(rest - special)):
            continue

        def both(v, r=r, special=special, d0=d0):
            g = eq(v - special)
            return select(g, d0, subst(r, {back: v})), ONE
        return both
    return None


def solve_digits(exprs, k, n, others):
    """k in [0, n) from its mixed-radix digits: exprs (dim, e) each a one-to-one function of one digit of k"""
    kid = single_atom(k).id
    digits = {}
    used = set()
    for d, e in exprs:
        if any(o in p_deep(e) for o in others):
            return None
        cand = [pl.ATOMS[a] for a in p_deep(e) if pl.ATOMS[a].kind in ("mod", "fdiv") and kid in atom_deep(pl.ATOMS[a])]
        for A in sorted(cand, key=lambda a: -len(atom_deep(a))):
            lo, hi = pl.atom_bounds(A)
            if A.kind == "mod":
                size = A.args[1]
            elif hi:
                size = hi[0] + 1
            else:
                continue
            D = fresh_index(size)
            f = subst(e, {A.id: D})
            if kid in p_deep(f):
                continue
            r = solve_one(f, D)
            if r is None:
                continue
            if A.id not in digits:
                digits[A.id] = (d, r, size)
                used.add(d)
            break
    atoms = [pl.ATOMS[a] for e in [e for _, e in exprs] for a in p_deep(e) if pl.ATOMS[a].kind in ("mod", "fdiv")]

    def whole(p, b, depth=0):
        """value of p (k itself or a quotient of it) and the range conditions"""
        s = single_atom(p)
        if s is None or depth > 40:
            return None
        if s.id in digits:
            d, r, size = digits[s.id]
            v, c = r(b[d])
            return v, pmul(c, pmul(ge(v), ge(size - 1 - v)))
        for A in atoms:
            if A.kind == "mod" and A.args[0] is p and A.id in digits:
                q = pl.divmod_p(p, A.args[1])[0]
                hi = whole(q, b, depth + 1)
                lo = whole(atomP(A), b)
                if hi is not None and lo is not None:
                    return pmul(hi[0], A.args[1]) + lo[0], pmul(hi[1], lo[1])
        return None
    if whole(k, [ZERO] * (max(d for d, _ in exprs) + 1) if exprs else []) is None:
        return None

    def inv(b):
        v, c = whole(k, b)
        return v, c if positive(n - v) else pmul(c, ge(n - 1 - v))
    inv.used = used
    return inv


def cast_p(p, frm, to):
    if to in ("int",):
        if frm in INTS or p.isint():
            return p
        return trunc(p)
    if to == "int8":
        return wrap8(p if p.isint() else trunc(p))
    if to in UNSIGNED:
        return p if frm == "bool" else wrapu(p if p.isint() else trunc(p), UNSIGNED[to])
    if to == "int16":
        return p if frm in ("bool", "int8") else wrap16(p if p.isint() else trunc(p))
    if to == "float32":
        return p if frm in ("bool", "int8", "int16", "float32") else r32(p)
    if to == "bool":
        if frm == "bool":
            return p
        return ONE - eq(p)
    return p


def astype(a, dt):
    f, d0 = a.fn(), a.dt
    return Arr(a.shape, lambda *i: cast_p(f(*i), d0, dt), dt, a.lib if a.lib != "py" else "np")
