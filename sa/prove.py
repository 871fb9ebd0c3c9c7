"""Equality arbiter over value graphs.

1. normal-form difference is 0                            -> "proved"
2. the graphs differ under a legal valuation of the leaves -> "refuted" (with the valuation as witness)
3. they agree under all valuations tried, including ones steered to both sides of every guard that occurs -> "agree"
4. opaque nodes prevent any evaluation                     -> "undecided"
Only 2 is a violation."""
import math
import random
import time
from fractions import Fraction as F
from . import poly as pl
from .poly import ATOMS, P, C, ZERO, ONE
from .valuation import Valuation, Undecided, Infeasible, exact

RTOL = 1e-7
LARGE = {"T": (13, 18, 25, 40, 60), "K": (12, 40), "G": (12, 20), "CAM": (14, 20), "NT": (5, 6), "A": (5, 40), "init_exp_max": (6, 12), "child_age_init_max": (5, 8), "lcb": (5, 10, 24, 100, 100)}


def close(a, b, rtol=RTOL):
    if a == b:
        return True
    a, b = float(a), float(b)
    if a != a and b != b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rtol * (abs(a) + abs(b)) + 1e-12


class Result:
    def __init__(self, status, **info):
        self.status, self.info = status, info

    def __repr__(self):
        return f"{self.status} {self.info}"


def guards_of(ps):
    out = set()
    for p in ps:
        for a in pl.p_deep(p):
            if ATOMS[a].kind in ("ge", "eq"):
                out.add(a)
    return out


def steer(A, seed, fixed, want, samplers):
    """leaf overrides under which guard A takes the wanted value: move one leaf the guard depends on"""
    d, t = A.args[0], A.args[1]
    v = Valuation(seed, fixed, samplers)
    try:
        d0 = v.ev(d)
    except (Undecided, Infeasible):
        return None
    if isinstance(d0, float) and (d0 != d0 or math.isinf(d0)):
        return None
    cands = [k for k in v.leaves if k not in v.fixed and isinstance(v.leaves[k], F) and pl.DECL[k[0]].rewrite is None or k[0].startswith("st_")]
    cands = [k for k in cands if not getattr(v.samplers.get(k[0]), "structured", False)]
    cands = [k for k in cands if not pl.DECL[k[0]].binary and k in v.leaves]
    r = v.rnd("steer", A.id)
    r.shuffle(cands)
    if A.kind == "ge":
        target = t + F(r.choice((0, 1, 1, 20))) * r.choice((F(1, 10), F(1), F(50))) if want else t - r.choice((F(1, 10), F(1), F(50)))
    else:
        target = t if want else t + 1
    for key in cands[:6]:
        dec = pl.DECL[key[0]]
        x0 = v.leaves[key]
        if dec.isint:
            xs = [x0 + s for s in (1, -1, 2, -2, 4, -4, 9, -9)]
            r.shuffle(xs)
        else:
            xs = None
        fx = dict(fixed)

        def f(x):
            fx[key] = x
            w = Valuation(seed, fx, samplers)
            y = w.ev(d)
            lo, hi = bounds_ok(w, key)
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                raise Infeasible("range")
            return y
        try:
            if xs:
                for x in xs:
                    try:
                        y = f(x)
                    except Infeasible:
                        continue
                    if sat(A, y, want):
                        fx[key] = x
                        return fx
                continue
            x1, y1 = x0, d0
            x2 = x0 + (abs(x0) / 10 if x0 else F(1, 10))
            y2 = f(x2)
            for _ in range(6):
                if sat(A, y2, want):
                    fx[key] = x2
                    return fx
                if y2 == y1:
                    break
                nx = x2 + (rat(target) - rat(y2)) * (x2 - x1) / (rat(y2) - rat(y1))
                nx = nx.limit_denominator(10 ** 9)
                x1, y1, x2 = x2, y2, nx
                y2 = f(x2)
        except (Undecided, Infeasible, OverflowError, ValueError):
            continue
    return None


def approach(d, t, seed, fixed, off, samplers):
    """leaf overrides under which d lies just beside the threshold t (between t and t + off)"""
    v = Valuation(seed, fixed, samplers)
    v.max_steps = 8000
    try:
        d0 = v.ev(d)
    except (Undecided, Infeasible, OverflowError, ValueError, ZeroDivisionError, RecursionError):
        return None
    if isinstance(d0, float) and (d0 != d0 or math.isinf(d0)):
        return None
    cands = [k for k in v.leaves if k not in v.fixed and isinstance(v.leaves[k], F) and pl.DECL[k[0]].rewrite is None or k[0].startswith("st_")]
    cands = [k for k in cands if not getattr(v.samplers.get(k[0]), "structured", False)]
    cands = [k for k in cands if k in v.leaves and not pl.DECL[k[0]].binary and not pl.DECL[k[0]].isint]
    v.rnd("approach").shuffle(cands)
    target, fx = t + off / 2, dict(fixed)
    for key in cands[:4]:
        x0 = v.leaves[key]

        def f(x):
            fx[key] = x
            w = Valuation(seed, fx, samplers)
            w.max_steps = 8000
            y = w.ev(d)
            lo, hi = bounds_ok(w, key)
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                raise Infeasible("range")
            return rat(y)
        try:
            x1, y1 = x0, rat(d0)
            x2 = x0 + (abs(x0) / 100 if x0 else F(1, 100))
            y2 = f(x2)
            if y2 == y1:
                x2 = x0 - (x2 - x0)
                y2 = f(x2)
            for _ in range(8):
                if abs(y2 - target) < abs(off) / 2:
                    fx[key] = x2
                    return fx
                if y2 == y1:
                    break
                nx = (x2 + (target - y2) * (x2 - x1) / (y2 - y1)).limit_denominator(10 ** 9)
                x1, y1, x2 = x2, y2, nx
                y2 = f(x2)
        except (Undecided, Infeasible, OverflowError, ValueError, ZeroDivisionError, RecursionError):
            pass
        fx = dict(fixed)
    return None


def switches(p):
    """(d, t): places where the graph changes its form, at d = t"""
    out = {}
    for a in pl.p_deep(p):
        A = ATOMS[a]
        if has_bv(A):
            continue
        if A.kind == "ge":
            out[a] = [(A.args[0], A.args[1])]
        elif A.kind == "max" and len(A.args) <= 4:
            out[a] = [(A.args[i] - A.args[j], F(0)) for i in range(len(A.args)) for j in range(i)]
    return out


def rat(x):
    return x if isinstance(x, F) else F(x)


def sat(A, y, want):
    from .valuation import cmpv
    c = cmpv(y, A.args[1])
    return ((c >= 0) if A.kind == "ge" else (c == 0)) == want


def bounds_ok(v, key):
    d = pl.DECL[key[0]]
    A = None
    if callable(d.lb) or callable(d.ub):
        A = pl.mk_atom("leaf", (key[0],) + tuple(C(a) for a in key[1:]))
    lo, hi = v.bound(d.lb, A), v.bound(d.ub, A)
    if lo is None and d.pos:
        lo = F(1, 10 ** 9)
    return lo, hi


class Arbiter:
    def __init__(self, tier="quick", seed=1, samplers=None):
        self.tier = tier
        self.n = 60 if tier == "quick" else 400
        self.steer_n = 120 if tier == "quick" else 1500
        self.limit = 12 if tier == "quick" else 60
        self.seed = seed
        self.samplers = samplers or {}

    def equal(self, got, ref, where=(), need=(), samplers=None, n=None, rtol=RTOL, fixed=None, effort=1, seed=None):
        """where: terms that must be > 1e-6 (numeric preconditions); need: 0/1 terms that must be 1"""
        return self.relation(got, ref, lambda a, b: close(a, b, rtol), where, need, samplers, n, fixed=fixed, effort=effort, seed=seed)

    def at_least(self, got, ref, where=(), need=(), samplers=None, n=None, strict=False, fixed=None):
        d = got - ref
        if (pl.positive(d) if strict else pl.nonneg(d)):
            return Result("proved", how="sign of the normal form")
        return self.relation(got, ref, (lambda a, b: float(a) > float(b)) if strict else (lambda a, b: a >= b or close(a, b)), where, need, samplers, n, nf=False, fixed=fixed)

    def finite(self, got, **kw):
        return self.relation(got, ZERO, lambda a, b: math.isfinite(fl(a)), nf=False, allow_nan=True, **kw)

    def relation(self, got, ref, rel, where=(), need=(), samplers=None, n=None, nf=True, fixed=None, allow_nan=False, effort=1, seed=None):
        got, ref = C(got), C(ref)
        fixed = fixed or {}
        if nf:
            if got is ref:
                return Result("proved", how="identical normal forms")
            d = got - ref
            if not d.t or not pl.tidy(d).t:
                return Result("proved", how="difference normalises to 0")
        t0 = time.time()
        sm = dict(self.samplers)
        sm.update(samplers or {})
        seen, met = {}, set()
        done = und = skip = 0
        N = n or max(8, int(self.n * effort))
        limit, steer_n = self.limit * effort, self.steer_n * effort
        und_why = None

        def attempt(seed, fixed, steps=None):
            nonlocal done, und, skip, und_why
            v = Valuation(seed, fixed, sm)
            if steps:
                v.max_steps = steps
            try:
                for q in need:
                    if not v.ev(q):
                        skip += 1
                        return None
                for q in where:
                    x = v.ev(q)
                    if not x > 1e-6:
                        skip += 1
                        return None
                a = v.ev(got)
                b = v.ev(ref)
            except Undecided as e:
                und += 1
                und_why = str(e)
                return None
            except Infeasible:
                skip += 1
                return None
            except (OverflowError, ValueError, ZeroDivisionError, RecursionError) as e:
                skip += 1
                return None
            for k, s in v.seen.items():
                seen.setdefault(k, set()).update(s)
            met.update(k[0] for k in v.leaves)
            fa, fb = fl(a), fl(b)
            if (fa != fa) != (fb != fb) and not allow_nan:
                if "nan" not in pl.leaf_names(got) and "nan" not in pl.leaf_names(ref):
                    skip += 1
                    return None
            if math.isinf(fa) and math.isinf(fb):
                skip += 1
                return None
            done += 1
            if not rel(a, b):
                if isinstance(a, float) or isinstance(b, float):
                    # not the rounding of this evaluation?
                    w = Valuation(seed, fixed, sm)
                    w.max_steps = v.max_steps
                    try:
                        with exact():
                            if rel(w.ev(got), w.ev(ref)):
                                return None
                    except (Undecided, Infeasible, OverflowError, ValueError, ZeroDivisionError, RecursionError):
                        return None
                return Result("refuted", got=fa, ref=fb, leaves={str(k[0]) + (str(tuple(num(x) for x in k[1:])) if len(k) > 1 else ""): num(x) for k, x in v.leaves.items()},
                              valuations=done)
            return None

        s = (self.seed if seed is None else seed) * 100003
        for i in range(N * 4):
            r = attempt(s + i, fixed)
            if r:
                return r
            if done >= N or (und > 25 and not done):
                break
            if time.time() - t0 > limit:
                break
        gs = guards_of([got, ref] + list(where))
        if done or skip:
            tries = 0
            rounds = 0
            while tries < steer_n and time.time() - t0 < limit * 2 and rounds < 12:
                rounds += 1
                todo = [a for a in sorted(gs) if len(seen.get(a, ())) < 2 and not has_bv(ATOMS[a])]
                if not todo:
                    break
                for a in todo:
                    if time.time() - t0 > limit * 2:
                        break
                    for want in (True, False):
                        if want in seen.get(a, ()):
                            continue
                        tries += 1
                        s2 = s + 7777 + tries * 13 + rounds
                        fx = steer(ATOMS[a], s2, fixed, want, sm)
                        if fx is None:
                            continue
                        r = attempt(s2, fx)
                        if r:
                            r.info["steered"] = f"{ATOMS[a]!r} = {want}"
                            return r
        if done and nf and effort == 1:
            r = self.joint(got, ref, s, fixed, sm, attempt)
            if r:
                return r
        narrow = [a for p in (got, ref) for a in pl.p_deep(p) if ATOMS[a].kind in ("wrap8", "wrap16", "wrapu")]
        if narrow:
            # storage in 16 bits: look at models as large as people estimate
            for i in range(60):
                r = random.Random(f"{s}{i}")
                big = {("T",): F(r.randint(40, 70)), ("CAM",): F(r.randint(10, 18)), ("NT",): F(r.randint(2, 4)), ("A",): F(r.randint(40000, 60000))}
                res = attempt(s + 900000 + i, {**big, **fixed})
                if res:
                    res.info["steered"] = "large model"
                    return res
        if done and nf and effort == 1:
            r = self.near(got, ref, s, fixed, sm, attempt)
            if r:
                return r
        sizes = met & set(LARGE)
        if done and sizes and nf:
            t1, done0 = time.time(), done
            for i in range(120):
                if done - done0 >= 36:
                    break
                r = random.Random(f"{s}L{i}")
                big = {(k,): F(r.choice(LARGE[k])) for k in sorted(sizes)}
                res = attempt(s + 950000 + i, {**big, **fixed}, 60000)
                if res:
                    res.info["steered"] = "large model"
                    return res
                if time.time() - t1 > 3:
                    break
        if not done:
            return Result("undecided", why=und_why or "no legal valuation found", skipped=skip)
        cov = sum(len(seen.get(a, ())) for a in gs)
        return Result("agree", valuations=done, guards=len(gs), outcomes=cov, undecided=und, skipped=skip)


    near_left = 40.0             # seconds per worker

    def near(self, got, ref, s, fixed, sm, attempt):
        """valuations just beside every threshold at which only one of the two graphs changes its form"""
        a, b = switches(got), switches(ref)
        sw = [q for k in sorted(set(a) ^ set(b)) for q in (a.get(k) or b.get(k))]
        if not sw or self.near_left <= 0:
            return None
        t0, most = time.time(), (1.5 if self.tier == "quick" else 20)
        try:
            for i, off in enumerate((F(1, 500), F(-1, 500), F(1, 20), F(-1, 20))):
                for j, (d, t) in enumerate(sw[:80]):
                    if time.time() - t0 > most:
                        return None
                    s2 = s + 600000 + 97 * j + i
                    fx = approach(d, F(t), s2, fixed, off, sm)
                    if fx is None:
                        continue
                    r = attempt(s2, fx)
                    if r:
                        r.info["steered"] = "beside a threshold of one graph"
                        return r
        finally:
            self.near_left -= time.time() - t0
        return None

    joint_left = 40.0            # seconds per worker

    def joint(self, got, ref, s, fixed, sm, attempt):
        """look for combinations of the guards on which the graphs differ that have not been seen: only these guards are evaluated
        under many valuations, the graphs themselves once per new combination"""
        diff = sorted(a for a in guards_of([got]) ^ guards_of([ref]) if not has_bv(ATOMS[a]))
        if not diff or len(diff) > 60 or self.joint_left <= 0:
            return None
        t0, most = time.time(), (1.5 if self.tier == "quick" else 15)
        seen, res = set(), None
        for i in range(4000):
            if time.time() - t0 > most or len(seen) > 150:
                break
            v = Valuation(s + 500000 + i, fixed, sm)
            v.max_steps = 4000
            sig = []
            for a in diff:
                try:
                    sig.append(bool(v.atom(ATOMS[a])))
                except (Undecided, Infeasible, OverflowError, ValueError, ZeroDivisionError, RecursionError):
                    sig.append(None)
            sig = tuple(sig)
            if sig in seen:
                continue
            seen.add(sig)
            res = attempt(s + 500000 + i, fixed)
            if res:
                res.info["steered"] = "joint outcomes of differing guards"
                break
        self.joint_left -= time.time() - t0
        return res


def fl(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf


def num(x):
    if isinstance(x, str):
        return x
    return int(x) if isinstance(x, F) and x.denominator == 1 else float(x)


_BV = {}


def has_bv(A):
    r = _BV.get(A.id)
    if r is None:
        r = _BV[A.id] = any(ATOMS[x].kind == "bv" for x in pl.atom_deep(A))
    return r
