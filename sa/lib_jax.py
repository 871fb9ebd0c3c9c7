"""jax transformations: vmap, scan, jit, cond, fori_loop, tree_map."""
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .lib import prim, method, PRIMS, to_arr, jaxify, stack_arrs, boolval
from .lib_np import np_moveaxis, booly


def tree_map(I, f, t, *rest):
    if isinstance(t, PDict):
        return PDict({k: tree_map(I, f, v, *[r.d[k] for r in rest]) for k, v in t.d.items()})
    if isinstance(t, tuple):
        return tuple(tree_map(I, f, v, *[r[i] for r in rest]) for i, v in enumerate(t))
    if isinstance(t, PList):
        return PList([tree_map(I, f, v, *[r.items[i] for r in rest]) for i, v in enumerate(t.items)])
    if isinstance(t, NT):
        return NT(t.name, {k: tree_map(I, f, v, *[r.fields[k] for r in rest]) for k, v in t.fields.items()})
    if t is None:
        return None
    return f(t, *rest)


@prim("jax.tree_util.tree_map", "jax.tree_map", "jax.tree.map")
def jtree(I, f, t, *rest, is_leaf=None):
    return tree_map(I, lambda *a: I.call(f, list(a), {}), t, *rest)


@prim("jax.tree_util.tree_leaves", "jax.tree.leaves")
def jleaves(I, t):
    out = []
    tree_map(I, lambda a: out.append(a), t)
    return PList(out)


def to_jax(I, v):
    def f(x):
        if is_num(x):
            return jaxify(arr_of(x))
        return x
    if isinstance(v, (PDict, tuple, PList, NT)) or is_num(v):
        return tree_map(I, f, v)
    return v


@prim("jax.jit", "jax.checkpoint", "jax.named_call")
def jit(I, f=None, static_argnums=None, static_argnames=None, donate_argnums=None, **k):
    if f is None:
        return PyFn("jit", lambda I, a, kw: jit(I, a[0], static_argnums, static_argnames))
    if donate_argnums is not None:
        I.event("donate")
    stat = set()
    for s in (static_argnums,):
        if s is not None:
            for x in (s if isinstance(s, tuple) else (s.items if isinstance(s, PList) else (s,))):
                stat.add(const_int(x))
    names = set()
    if static_argnames is not None:
        names = {static_argnames} if isinstance(static_argnames, str) else set(static_argnames if isinstance(static_argnames, tuple) else static_argnames.items)

    def call(I, a, kw):
        return to_jax(I, I.call(f, [x if i in stat else to_jax(I, x) for i, x in enumerate(a)], {n: (x if n in names else to_jax(I, x)) for n, x in kw.items()}))
    r = PyFn(f"jit({getattr(f, 'name', f)})", call)
    r.inner = f
    return r


def mapped_axis(ax):
    if ax is None:
        return None
    c = const_int(ax)
    if c is None:
        raise Unsupported("vmap axis")
    return c


def first_dim(I, v, ax, out):
    """collect mapped dimensions"""
    if ax is None:
        return
    if isinstance(ax, (tuple, PList)):
        axs = ax if isinstance(ax, tuple) else ax.items
        vs = v if isinstance(v, tuple) else (v.items if isinstance(v, PList) else list(v.fields.values()))
        for x, a in zip(vs, axs):
            first_dim(I, x, a, out)
        return
    if isinstance(ax, PDict):
        for k in v.d:
            first_dim(I, v.d[k], ax.d.get(k), out)
        return
    c = mapped_axis(ax)

    def f(a):
        a = to_arr(I, a)
        if not a.shape:
            raise AbsRaise("ValueError", "vmap over a scalar", I.where())
        out.append(a.shape[c])
        return a
    tree_map(I, f, v)


def slice_tree(I, v, ax, k):
    if ax is None:
        return to_jax(I, v)
    if isinstance(ax, (tuple, PList)):
        axs = list(ax if isinstance(ax, tuple) else ax.items)
        vs = v if isinstance(v, tuple) else (v.items if isinstance(v, PList) else list(v.fields.values()))
        r = tuple(slice_tree(I, x, a, k) for x, a in zip(vs, axs))
        return r
    if isinstance(ax, PDict):
        return PDict({n: slice_tree(I, x, ax.d.get(n), k) for n, x in v.d.items()})
    c = mapped_axis(ax)

    def f(a):
        a = to_arr(I, a)
        key = [Slice(None, None, None)] * a.ndim
        key[c] = scalar(k, "int")
        return jaxify(V.getitem(jaxify(a), tuple(key)))
    return tree_map(I, f, v)


@prim("jax.vmap", "jax.pmap")
def vmap(I, f, in_axes=0, out_axes=0, **k):
    def call(I, args, kw):
        dims = []
        if isinstance(in_axes, (tuple, PList)):
            axs = list(in_axes if isinstance(in_axes, tuple) else in_axes.items)
            if len(axs) != len(args):
                raise AbsRaise("ValueError", "vmap in_axes does not match the arguments", I.where())
        else:
            axs = [in_axes] * len(args)
        for a, x in zip(args, axs):
            first_dim(I, a, x, dims)
        for x in kw.values():
            first_dim(I, x, scalar(ZERO), dims)
        if not dims:
            raise AbsRaise("ValueError", "vmap without mapped argument", I.where())
        n = dims[0]
        for d in dims[1:]:
            if not dim_eq(n, d):
                if n.is_const() and d.is_const():
                    raise AbsRaise("ValueError", f"vmap sizes {n} and {d}", I.where())
                I.assume(f"dimension {n} == {d}")
                if d.is_const():
                    n = d

        def at(kk):
            return I.call(f, [slice_tree(I, a, x, kk) for a, x in zip(args, axs)], {m: slice_tree(I, x, scalar(ZERO), kk) for m, x in kw.items()})
        if n.is_const() and n.const() <= 4:
            rs = [at(C(i)) for i in range(int(n.const()))]
            return build_out(I, [rs[0]] + rs[1:], out_axes, None, n)
        kk = fresh_index(n, "v")
        I.loopstack.append(kk)
        try:
            r = at(kk)
        finally:
            I.loopstack.pop()
        return build_out(I, [r], out_axes, kk, n)
    return PyFn("vmapped", call)


def build_out(I, rs, ax, kk, n):
    r = rs[0]
    if isinstance(r, Opq):
        return r
    if isinstance(r, (tuple, PList, NT, PDict)):
        def child(t, key):
            return t.d[key] if isinstance(t, PDict) else (t.fields[key] if isinstance(t, NT) else (t.items[key] if isinstance(t, PList) else t[key]))
        keys = list(r.d) if isinstance(r, PDict) else (list(r.fields) if isinstance(r, NT) else list(range(len(r if isinstance(r, tuple) else r.items))))

        def axk(i, key):
            if isinstance(ax, tuple):
                return ax[i]
            if isinstance(ax, PList):
                return ax.items[i]
            if isinstance(ax, PDict):
                return ax.d[key]
            return ax
        vals = [build_out(I, [child(t, key) for t in rs], axk(i, key), kk, n) for i, key in enumerate(keys)]
        if isinstance(r, PDict):
            return PDict(dict(zip(keys, vals)))
        if isinstance(r, NT):
            return NT(r.name, dict(zip(keys, vals)))
        return tuple(vals) if isinstance(r, tuple) else PList(vals)
    if r is None:
        return None
    arrs = [to_arr(I, x) for x in rs]
    if ax is None:
        return arrs[0]
    pos = mapped_axis(ax)
    a = arrs[0]
    nd = a.ndim + 1
    if pos < 0:
        pos += nd
    if kk is None:
        return jaxify(stack_arrs(arrs, pos))
    f = a.fn()
    kid = single_atom(kk).id

    def g(*i):
        return I._subst_at(f, {kid: i[pos]}, i[:pos] + i[pos + 1:])
    return Arr(a.shape[:pos] + (n,) + a.shape[pos:], g, a.dt, "jax")


@prim("jax.lax.map")
def lax_map(I, f, xs, batch_size=None):
    return vmap(I, f).fn(I, [xs], {})


@prim("jax.lax.cond")
def lax_cond(I, c, t, f, *ops, operand=None):
    ops = list(ops) if ops or operand is None else [operand]
    p = I.truth(c)
    return I.branch(p, lambda: I.call(t, ops, {}), lambda: I.call(f, ops, {}))


@prim("jax.lax.switch")
def lax_switch(I, i, branches, *ops):
    fs = I.iterate(branches)[1]
    p = arr_of(i).p()
    r = I.call(fs[-1], list(ops), {})
    for k in range(len(fs) - 2, -1, -1):
        r = I.join(ge(k - p) if k == 0 else eq(p - k), I.call(fs[k], list(ops), {}), r)
    return r


@prim("jax.lax.fori_loop")
def fori(I, lo, hi, body, init, unroll=None):
    a, b = arr_of(lo).p(), arr_of(hi).p()
    n = b - a
    if n.is_const() and n.const() <= 16:
        v = init
        for i in range(int(n.const())):
            v = I.call(body, [scalar(a + i, "int", "jax"), v], {})
        return v
    r, _ = scan_impl(I, lambda c, x, k: (I.call(body, [scalar(a + k, "int", "jax"), c], {}), None), init, None, n, "fori")
    return r


def scan_impl(I, step, init, xs, n, kind, reverse=False):
    from .interp import LoopSummary
    sid = I.uid("S")
    k = fresh("k" + sid, isint=True, lb=F(0), ub=n - 1)
    kid = single_atom(k).id
    summ = LoopSummary(kind, I.where(), n, k)
    summ.reverse = reverse
    names = []

    def hv(a):
        a = to_arr(I, a)
        nm = I.uid(sid + ":carry#")
        declare(nm, isint=a.dt in INTS, binary=a.dt == "bool")
        names.append((nm, a))
        return Arr(a.shape, lambda *i: leaf(nm, k, *i), a.dt, "jax")
    carry = tree_map(I, hv, init)
    pos = n - 1 - k if reverse else k
    x = None if xs is None else slice_tree(I, xs, scalar(ZERO), pos)
    I.loopstack.append(k)
    try:
        r = step(carry, x, k)
    finally:
        I.loopstack.pop()
    if isinstance(r, Opq):
        return r, r
    new, ys = r if isinstance(r, tuple) else tuple(r.items)
    flat = []
    tree_map(I, lambda a: flat.append(to_arr(I, a)), new)
    for (nm, a0), a1 in zip(names, flat):
        summ.carried[nm] = dict(desc="carry", init=a0, next=a1)
    I.loops.append(summ)
    final = tree_map(I, lambda a: jaxify(I.subst_value(to_arr(I, a), {kid: n - 1})), new)

    def stacked(y):
        y = to_arr(I, y)
        f = y.fn()

        def g(i, *j):
            q = n - 1 - i if reverse else i
            return I._subst_at(f, {kid: q}, j)
        return Arr((n,) + y.shape, g, y.dt, "jax")
    return final, (None if ys is None else tree_map(I, stacked, ys))


@prim("jax.lax.scan")
def scan(I, f, init, xs=None, length=None, reverse=False, unroll=None):
    if xs is not None:
        dims = []
        first_dim(I, xs, scalar(ZERO), dims)
        n = dims[0]
        for d in dims[1:]:
            if not dim_eq(d, n):
                I.assume(f"dimension {d} == {n}")
    else:
        n = arr_of(length).p()
    rev = reverse is True or const_int(reverse) == 1
    return scan_impl(I, lambda c, x, k: I.call(f, [c, x], {}), init, xs, n, "scan", rev)


@prim("jax.device_get", "jax.device_put", "jax.block_until_ready", "jax.lax.stop_gradient")
def ident(I, x, *a, **k):
    return x


@prim("jnp.vectorize")
def jvec(I, f, **k):
    r = PRIMS["np.vectorize"](I, f)
    return PyFn("jvectorized", lambda I, a, kw: jaxify(r.fn(I, a, kw)))


@prim("jax.lax.dynamic_slice_in_dim", "jax.lax.dynamic_index_in_dim")
def dyn(I, *a, **k):
    raise Unsupported("dynamic slice")


@prim("jax.nn.relu")
def relu(I, x):
    return ew(lambda p: pmax(p, ZERO), to_arr(I, x))
