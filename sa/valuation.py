"""Random interpretation of value graphs: evaluate a graph under an assignment of its leaves that respects the declared
ranges.  Used only to refute equalities (two graphs that differ under a legal valuation are different) and to report
which regions of a graph were exercised.  Nothing of the analysed program is run: leaves are the program's inputs, nodes
the operations found in its source."""
import math
import random
from fractions import Fraction as F
from . import poly as pl
from .poly import ATOMS, DECL, P


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


DIMS = {"T": (2, 4), "S": (1, 3), "CAM": (0, 12), "NT": (1, 4), "A": (1, 3), "G": (2, 5), "K": (1, 3)}
BIG = 200


class Valuation:
    def __init__(self, seed, fixed=None, samplers=None):
        self.seed = seed
        self.fixed = dict(fixed or {})       # (name, *args) -> value
        self.samplers = dict(DEFAULT_SAMPLERS)
        self.samplers.update(samplers or {})
        self.leaves = {}
        self.memo = {}
        self.env = {}
        self.seen = {}                       # indicator atom id -> set of truth values
        self.steps, self.max_steps = 0, 400000

    # -------------------------------------------------------------- leaves
    def rnd(self, *key):
        return random.Random(repr((self.seed,) + key))

    def leaf(self, name, args, A=None):
        key = (name,) + tuple(args)
        v = self.leaves.get(key)
        if v is None:
            v = self.fixed.get(key)
            if v is None:
                v = self.sample(name, args, A)
            self.leaves[key] = v
        return v

    def sample(self, name, args, A):
        d = DECL[name]
        if d.opaque:
            raise Undecided(f"opaque {name}")
        if name == "nan":
            return math.nan
        if name == "inf":
            return math.inf
        if name == "pi":
            return math.pi
        s = self.samplers.get(name)
        if s is not None:
            return s(self, args)
        base = name.split("#")[0]
        r = self.rnd(name, args)
        if d.binary:
            return r.randrange(2)
        lb = self.bound(d.lb, A)
        ub = self.bound(d.ub, A)
        if d.sample is not None and r.random() < 0.8:
            c = [x for x in d.sample if (lb is None or x >= lb) and (ub is None or x <= ub)]
            if c:
                return F(r.choice(c))
        if d.isint:
            lo = lb if lb is not None else -3
            hi = ub if ub is not None else lo + 6
            if ub is None and name in DIMS:
                lo, hi = DIMS[name]
            if hi < lo:
                raise Infeasible(name)
            lo, hi = math.ceil(lo), math.floor(hi)
            if hi - lo > 8 and r.random() < 0.5:
                return F(r.choice((lo, lo + 1, hi, hi - 1)))
            return F(r.randint(lo, hi))
        if lb is not None and ub is not None:
            if ub < lb:
                raise Infeasible(name)
            u = r.random()
            if u < 0.06:
                return F(lb)
            if u > 0.94:
                return F(ub)
            return F(lb) + (F(ub) - F(lb)) * F(r.randint(1, 999), 1000)
        if lb is not None or d.pos:
            lo = F(lb) if lb is not None else F(0)
            e = r.choice((F(1, 10), F(1), F(1), F(20), F(300), F(1500)))
            v = lo + e * F(r.randint(1, 2000), 1000)
            if not d.pos and r.random() < 0.05:
                v = lo
            return v
        e = r.choice((F(1, 10), F(1), F(1), F(2), F(30)))
        return e * F(r.randint(-1000, 1000), 1000)

    def bound(self, b, A):
        if b is None:
            return None
        if callable(b):
            b = b(*A.args[1:]) if A is not None else None
            if b is None:
                return None
        if isinstance(b, P):
            return self.ev(b)
        return F(b)

    # -------------------------------------------------------------- terms
    def ev(self, p):
        if p.is_const():
            return p.const()
        tot = F(0)
        for m, c in p.t.items():
            v = self.mono(m, c)
            if v:
                tot = add(tot, v)
        return tot

    def mono(self, m, c):
        inds, rest = [], []
        for a, e in m:
            (inds if ATOMS[a].ind else rest).append((a, e))
        for a, e in inds:
            if not self.atom(ATOMS[a]):
                return 0
        v = c
        zero = False
        for a, e in rest:
            x = self.atom(ATOMS[a])
            x = power(x, e)
            v = mul(v, x)
        return v

    def atom(self, A):
        env = self.env
        if env:
            dp = pl.atom_deep(A)
            ks = tuple((k, env[k]) for k in sorted(env) if k == A.id or k in dp)
            key = (A.id, ks)
        else:
            key = A.id
        v = self.memo.get(key)
        if v is None:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("valuation too large")
            v = self.atom2(A)
            self.memo[key] = v
            if A.kind in ("ge", "eq") or A.ind:
                self.seen.setdefault(A.id, set()).add(bool(v))
        return v

    def atom2(self, A):
        k, a = A.kind, A.args
        if k == "leaf":
            return self.leaf(a[0], [x if isinstance(x, str) else self.ev(x) for x in a[1:]], A)
        if k == "bv":
            if A.id not in self.env:
                raise Undecided("free bound variable")
            return self.env[A.id]
        if k == "ge":
            return F(1) if cmpv(self.ev(a[0]), a[1]) >= 0 else F(0)
        if k == "eq":
            return F(1) if cmpv(self.ev(a[0]), a[1]) == 0 else F(0)
        if k == "floor":
            x = self.ev(a[0])
            return F(math.floor(x))
        if k == "fdiv":
            x, q = self.ev(a[0]), self.ev(a[1])
            if not q:
                raise Infeasible("division by zero")
            return F(math.floor(x / q))
        if k == "mod":
            x, q = self.ev(a[0]), self.ev(a[1])
            if not q:
                raise Infeasible("division by zero")
            return x - q * math.floor(x / q)
        if k == "max":
            return max(self.ev(x) for x in a)
        if k == "argmax":
            vs = [self.ev(x) for x in a]
            best = max(vs)
            close = [i for i, v in enumerate(vs) if v == best or abs(v - best) <= 1e-9 * (1 + abs(best))]
            if len(close) > 1 and not all(isinstance(vs[i], F) for i in close):
                # a tie of equal graphs is a tie; a near-tie of different graphs is not evaluated
                if not all(vs[i] == best for i in close):
                    raise Infeasible("near tie")
            return F(vs.index(best))
        if k == "exp":
            x = self.ev(a[0])
            try:
                return F(1) if x == 0 else math.exp(x)
            except OverflowError:
                raise Infeasible("overflow")
        if k == "log":
            x = self.ev(a[0])
            if x == 1:
                return F(0)
            if x == 0:
                return -math.inf
            if x < 0:
                return math.nan
            return math.log(x)
        if k == "grp":
            return self.ev(a[0])
        if k == "num":
            return self.ev(a[0])
        if k == "cpow":
            return power(self.ev(a[0]), a[1].const())
        if k == "wrap8":
            return F((int(self.ev(a[0])) + 128) % 256 - 128)
        if k == "wrap16":
            return F((int(self.ev(a[0])) + 32768) % 65536 - 32768)
        if k == "wrapu":
            return F(int(self.ev(a[0])) % 2 ** a[1])
        if k == "r32":
            return coarse(self.ev(a[0]))
        if k == "uf":
            if a[0] == "zeropow":
                e = self.ev(a[1])
                return F(0) if e > 0 else math.inf
            if a[0] == "pow":
                return power(self.ev(a[1]), a[2].const())
            if a[0] == "round":
                return F(round(self.ev(a[1]), int(a[2].const())))
            return F(self.rnd("uf", a[0], tuple(self.ev(x) for x in a[1:])).randint(-999, 999), 500)
        if k in ("sum", "any", "count", "maxd", "argmaxd", "sel", "rank"):
            return self.bound_op(A)
        raise Undecided(f"node {k}")

    def bound_op(self, A):
        body, n, lvl = A.args[:3]
        N = self.ev(n)
        if N > BIG:
            raise Undecided("range too large")
        N = int(N)
        bv = pl.mk_atom("bv", (lvl, n))
        k = A.kind
        old = self.env.get(bv.id)
        j = int(self.ev(A.args[3])) if k in ("sel", "rank") else None
        vals = []
        try:
            for i in range(N):
                self.env[bv.id] = F(i)
                vals.append(self.ev(body))
        finally:
            if old is None:
                self.env.pop(bv.id, None)
            else:
                self.env[bv.id] = old
        if k == "sum":
            t = F(0)
            for v in vals:
                t = add(t, v)
            return t
        if k == "any":
            return F(1) if any(vals) else F(0)
        if k == "count":
            return F(sum(1 for v in vals if v))
        if k == "maxd":
            if not vals:
                raise Infeasible("maximum of nothing")
            return max(vals)
        if k == "argmaxd":
            return F(vals.index(max(vals))) if vals else F(0)
        if k == "sel":
            c = -1
            for i, v in enumerate(vals):
                if v:
                    c += 1
                    if c == j:
                        return F(i)
            raise Infeasible("selection out of range")
        if k == "rank":
            return F(sum(1 for v in vals[:j] if v))


def coarse(x):
    """narrow storage: integers of 24 bits are kept, anything else loses its low bits (fewer are kept than in single
    precision, so that the loss exceeds the tolerance of the comparisons)"""
    if isinstance(x, F) and x.denominator == 1 and abs(x) < 2 ** 24:
        return x
    f = float(x)
    if f != f or math.isinf(f) or not f:
        return x
    m, e = math.frexp(f)
    return math.ldexp(round(m * 4096) / 4096, e)


def cmpv(x, t):
    """compare with a threshold; values within rounding of it count as equal"""
    if isinstance(x, F):
        return (x > t) - (x < t)
    if x != x:
        return -1
    d = x - float(t)
    if d == 0 or abs(d) <= 1e-11 * max(1.0, abs(float(t))):
        return 0
    return 1 if d > 0 else -1


EXACT = [False]


class exact:
    """within: sums and products are kept exact, so that a difference is not the rounding of this evaluation (functions
    such as exp give the nearest double)"""

    def __enter__(self):
        EXACT[0] = True

    def __exit__(self, *a):
        EXACT[0] = False


def rational(x):
    if EXACT[0] and isinstance(x, float) and math.isfinite(x):
        return F(x)
    return x


def add(a, b):
    if EXACT[0]:
        a, b = rational(a), rational(b)
    if isinstance(a, F) and isinstance(b, F):
        return shrink(a + b)
    return float(a) + float(b)


def mul(a, b):
    if EXACT[0]:
        a, b = rational(a), rational(b)
    if isinstance(a, F) and isinstance(b, F):
        return shrink(a * b)
    try:
        return float(a) * float(b)
    except OverflowError:
        raise Infeasible("overflow")


def shrink(x):
    n = x.denominator.bit_length()
    if n > 400 and (not EXACT[0] or n > 40000):
        return float(x)
    return x


def power(x, e):
    if e == 1:
        return x
    if EXACT[0]:
        x = rational(x)
    if isinstance(x, F) and e.denominator == 1:
        if x == 0 and e < 0:
            return math.inf
        if abs(int(e)) < 8:
            return x ** int(e)
    try:
        x = float(x)
        if x == 0:
            return math.inf if e < 0 else 0.0
        if x < 0 and e.denominator != 1:
            return math.nan
        return x ** float(e)
    except OverflowError:
        raise Infeasible("overflow")


# ------------------------------------------------------------------ structured leaves
def s_grid(v, args):
    G = int(v.leaf("G", []))
    g = int(args[0])
    if g <= 0:
        return F(0)
    if g >= G - 1:
        return F(1)
    pts = []
    r = v.rnd("grid")
    while len(pts) < G - 2:
        x = F(r.randint(1, 99), 100)
        if x not in pts:
            pts.append(x)
    return sorted(pts)[g - 1]


def s_small(lo, hi, den=100):
    def f(v, args):
        r = v.rnd("small", lo, hi, tuple(args), len(v.leaves))
        return F(r.randint(int(lo * den), int(hi * den)), den)
    return f


def small(name, lo, hi, den=100):
    return lambda v, args: F(v.rnd(name, tuple(args)).randint(int(lo * den), int(hi * den)), den)


def s_dist(name, size):
    """a probability vector over the last argument"""
    def f(v, args):
        n = size(v)
        w = [v.rnd(name, tuple(args[:-1]), i).randint(1, 9) for i in range(n)]
        i = int(args[-1])
        return F(w[i], sum(w)) if 0 <= i < n else F(0)
    f.structured = True
    return f


def _lin(name, n):
    w = [F(i + 1) for i in range(n)]
    return w


def s_ghw(v, args):
    """positive weights with the moments of Gauss-Hermite: sum sqrt(pi), second moment sqrt(pi)/2, symmetric nodes"""
    i, n = int(args[0]), int(args[1])
    return _gh(n)[1][i]


def s_ghx(v, args):
    i, n = int(args[0]), int(args[1])
    return _gh(n)[0][i]


def _gh(n):
    """Gauss-Hermite nodes and weights by Newton iteration"""
    r = _GH.get(n)
    if r is None:
        xs, ws = [], []
        for i in range(n):
            # bracketed by scanning: roots of H_n are simple and within |x| < sqrt(2n+1)
            pass
        f = lambda x: _herm(n, x)[0]
        lo, hi = -math.sqrt(2 * n + 1) - 0.01, math.sqrt(2 * n + 1) + 0.01
        N = 400 * n
        prev = lo
        for k in range(1, N + 1):
            x = lo + (hi - lo) * k / N
            if f(prev) == 0 or f(prev) * f(x) < 0:
                a, b = prev, x
                for _ in range(80):
                    c = (a + b) / 2
                    if f(a) * f(c) <= 0:
                        b = c
                    else:
                        a = c
                xs.append((a + b) / 2)
            prev = x
        xs = [0.0 if abs(x) < 1e-12 else x for x in xs]
        for x in xs:
            h = _herm(n, x)[1]
            ws.append(2 ** (n - 1) * math.factorial(n) * math.sqrt(math.pi) / (n * n * h * h))
        r = _GH[n] = (xs, ws)
    return r


_GH = {}


def _herm(n, x):
    a, b = 0.0, 1.0
    for k in range(n):
        a, b = b, 2 * x * b - 2 * k * a
    return b, a


s_grid.structured = s_ghw.structured = s_ghx.structured = True    # joint constraints: never moved one at a time
DEFAULT_SAMPLERS = {"grid": s_grid, "gh_x": s_ghx, "gh_w": s_ghw, "tsh": s_dist("tsh", lambda v: int(v.leaf("NT", [])))}
for _n, _lo, _hi in (("gamma_0", 0, 3), ("gamma_1", 0, 1), ("gamma_p_mom", 0, 1), ("theta_p", -2, 2), ("theta_f", -2, 2),
                     ("no_kids_f", -1, 1), ("no_kids_p", -1, 1), ("yes_kids_f", -1, 1), ("yes_kids_p", -1, 1), ("child_0_2_f", -1, 1),
                     ("child_0_2_p", -1, 1), ("child_3_5_f", -1, 1), ("child_3_5_p", -1, 1), ("child_6_10_f", -1, 1), ("child_6_10_p", -1, 1),
                     ("mw", 20, 1500), ("eqv", 1, 2), ("cb", 0, 60), ("ccc", 0, 120), ("em", -20, 20), ("egmin", 0, 100),
                     ("egmax", 100, 500), ("erz", 0, 100), ("erz_inc_s", 100, 800), ("erz_inc_m", 100, 800), ("regelsatz_single", 10, 120),
                     ("regelsatz_child", 0, 90), ("housing_single", 0, 90), ("housing_addtion", 0, 40), ("addition_child_single", 0, 40),
                     ("child_benefits", 0, 60)):
    DEFAULT_SAMPLERS[_n] = small(_n, _lo, _hi)


def s_gamma_p(v, args):
    """part-time increments are usually below one year per year, but need not be"""
    r = v.rnd("gamma_p", tuple(args))
    return F(r.randint(0, 100), 100) if r.random() < 0.75 else F(r.randint(100, 180), 100)


DEFAULT_SAMPLERS["gamma_p"] = s_gamma_p


def s_shock_sd(v, args):
    r = v.rnd("shock_sd")
    return F(r.randint(10, 200), 100) if r.random() < 0.95 else F(0)


DEFAULT_SAMPLERS["shock_sd"] = s_shock_sd


def none_paid(name):
    """benefits and costs may all be absent at once"""
    f0 = DEFAULT_SAMPLERS[name]
    return lambda v, args: F(0) if v.rnd("none paid").random() < 0.08 else f0(v, args)


for _n in ("cb", "ccc", "egmin", "erz", "regelsatz_single", "regelsatz_child", "housing_single", "housing_addtion", "addition_child_single", "child_benefits"):
    DEFAULT_SAMPLERS[_n] = none_paid(_n)
