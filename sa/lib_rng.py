"""Random number generators: every draw becomes a recorded leaf with its distribution, generator and seed."""
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .lib import prim, method, PRIMS, METHODS, to_arr
from .lib_np import shape_of


class Gen:
    def __init__(self, name, seed, origin=None):
        self.name = name
        self.cell = Cell(("seed", seed, 0), origin)


def glob(I):
    if I.rng is None:
        I.rng = Gen("global numpy generator", None)
        I.rng.cell.state = ("unseeded", None, 0)
    return I.rng


def seed_p(I, s):
    if s is None:
        return None
    if isinstance(s, Opq):
        return None
    a = to_arr(I, s)
    if a.shape:
        # a seed sequence: represent by all its parts
        return pl.uf("seedseq", *[a.at(i) for i in range(int(a.shape[0].const()))])
    return a.p()


def new_draw(I, g, dist, params, shape, dt, **decl):
    kind, seed, cnt = g.cell.state
    site = I.where()
    name = I.uid("draw")
    declare(name, **decl)
    size = ONE
    for s in shape:
        size = pmul(size, s)
    I.draws[name] = dict(dist=dist, params=params, shape=tuple(shape), gen=g.name, seedkind=kind, seed=seed, where=site, guard=I.guard(),
                         loops=tuple(I.loopstack), stack=[f.func.name for f in I.frames if f.func], order=len(I.draws), name=name,
                         funcs=[(f.func.module.name, f.func.name) for f in I.frames if f.func])
    I.rng_events.append(dict(kind="draw", name=name, gen=g.name, size=size, guard=I.guard(), where=site, seed=seed, seedkind=kind, loops=tuple(I.loopstack)))
    outer = tuple(I.loopstack)
    return Arr(shape, lambda *i: leaf(name, *outer, *i), dt, "np"), name


@prim("np.random.seed")
def np_seed(I, s=None):
    g = glob(I)
    p = seed_p(I, s)
    I.rng_events.append(dict(kind="seed", gen=g.name, seed=p, guard=I.guard(), where=I.where(), loops=tuple(I.loopstack)))
    g.cell.set(("seed" if p is not None else "unseeded", p, 0))


@prim("np.random.default_rng", "np.random.RandomState", "np.random.Generator", "np.random.PCG64", "np.random.SeedSequence", "np.random.MT19937")
def default_rng(I, s=None):
    if isinstance(s, Gen):
        return s
    p = seed_p(I, s)
    g = Gen(I.uid("generator"), p, I.default_origin)
    if p is None:
        g.cell.state = ("unseeded", None, 0)
    I.rng_events.append(dict(kind="seed", gen=g.name, seed=p, guard=I.guard(), where=I.where(), loops=tuple(I.loopstack)))
    return g


def size_of(I, size, *params):
    if size is None:
        arrs = [to_arr(I, p) for p in params]
        return broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
    return shape_of(size)


def d_choice(I, g, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    av = to_arr(I, a)
    if not av.shape:
        n = av.p()
        val = None
    else:
        n = av.shape[0]
        val = av
    shape = size_of(I, size)
    pa = to_arr(I, p) if p is not None else None
    arr, name = new_draw(I, g, "choice", dict(n=n, p=pa, values=val, replace=replace), shape, "int", isint=True, lb=F(0), ub=n - 1)
    if val is not None:
        f, h = val.fn(), arr.fn()
        return Arr(shape, lambda *i: f(h(*i)), val.dt, "np")
    return arr


def d_binomial(I, g, n=None, p=None, size=None):
    nn, pp = to_arr(I, n), to_arr(I, p)
    shape = size_of(I, size, nn, pp)
    one = not nn.shape and nn.p() is ONE
    kw = dict(binary=True) if one else dict(isint=True, lb=F(0))
    arr, name = new_draw(I, g, "binomial", dict(n=nn, p=pp), shape, "int", **kw)
    return arr


def d_normal(I, g, loc=0.0, scale=1.0, size=None):
    m, s = to_arr(I, loc), to_arr(I, scale)
    shape = size_of(I, size, m, s)
    arr, name = new_draw(I, g, "normal", dict(loc=m, scale=s), shape, "float")
    # standardise: value = loc + scale * z with z ~ N(0,1)
    I.draws[name]["standard"] = True
    f, fm, fs = arr.fn(), m.fn(), s.fn()
    nd = len(shape)
    return Arr(shape, lambda *i: fm(*bidx(m.shape, nd, i)) + pmul(fs(*bidx(s.shape, nd, i)), f(*i)), "float", "np")


def d_stdnormal(I, g, size=None, *more):
    shape = size_of(I, size if not more else (size,) + more)
    return new_draw(I, g, "normal", dict(loc=arr_of(0), scale=arr_of(1)), shape, "float")[0]


def d_uniform(I, g, low=0.0, high=1.0, size=None):
    a, b = to_arr(I, low), to_arr(I, high)
    shape = size_of(I, size, a, b)
    arr, _ = new_draw(I, g, "uniform", dict(low=a, high=b), shape, "float", lb=F(0), ub=F(1))
    f, fa, fb = arr.fn(), a.fn(), b.fn()
    nd = len(shape)
    return Arr(shape, lambda *i: fa(*bidx(a.shape, nd, i)) + pmul(fb(*bidx(b.shape, nd, i)) - fa(*bidx(a.shape, nd, i)), f(*i)), "float", "np")


def d_random(I, g, size=None, *more):
    shape = size_of(I, size if not more else (size,) + more)
    return new_draw(I, g, "uniform", dict(low=arr_of(0), high=arr_of(1)), shape, "float", lb=F(0), ub=F(1))[0]


def d_integers(I, g, low, high=None, size=None, endpoint=False, dtype=None):
    lo, hi = (ZERO, to_arr(I, low).p()) if high is None else (to_arr(I, low).p(), to_arr(I, high).p())
    if endpoint is True:
        hi = hi + 1
    shape = size_of(I, size)
    return new_draw(I, g, "integers", dict(low=lo, high=hi), shape, "int", isint=True, lb=lo, ub=hi - 1)[0]


def d_perm(I, g, x):
    raise Unsupported("random permutation")


TABLE = {"choice": d_choice, "binomial": d_binomial, "normal": d_normal, "standard_normal": d_stdnormal, "randn": d_stdnormal, "uniform": d_uniform,
         "random": d_random, "rand": d_random, "random_sample": d_random, "integers": d_integers, "randint": d_integers}
for _n, _f in TABLE.items():
    PRIMS["np.random." + _n] = lambda I, *a, _f=_f, **k: _f(I, glob(I), *a, **k)
    METHODS["Gen", _n] = lambda I, g, *a, _f=_f, **k: _f(I, g, *a, **k)


def m_seed(I, g, s=None):
    p = seed_p(I, s)
    I.rng_events.append(dict(kind="seed", gen=g.name, seed=p, guard=I.guard(), where=I.where(), loops=tuple(I.loopstack)))
    g.cell.set(("seed" if p is not None else "unseeded", p, 0))


METHODS["Gen", "seed"] = m_seed


@prim("np.random.get_state", "np.random.set_state")
def get_state(I, *a, **k):
    I.rng_events.append(dict(kind="state-access", gen="global numpy generator", guard=I.guard(), where=I.where(), seed=None, loops=()))
    return Opq("generator state")


def m_spawn(I, g, n):
    raise Unsupported("generator spawn")


@prim("random.seed")
def py_seed(I, *a, **k):
    I.py_seeded = True
    raise Unsupported("the standard library's generator")
