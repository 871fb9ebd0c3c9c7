"""Value-graph domain: interned polynomials over interned atoms.

A term (class P) is a polynomial with rational coefficients over atoms.  Booleans are 0/1 polynomials, a gate
select(c,a,b) is c*a+(1-c)*b.  Comparisons become indicator atoms ge(d,t) = [d >= t] and eq(d,t) = [d == t] over a
canonical direction d, so that indicators of one direction multiply into one another.  Non-polynomial functions are
atoms whose arguments are terms.  Everything is interned, so structural equality is identity.
"""
from fractions import Fraction as F
import math

ATOMS = []          # id -> Atom
_ATOM_INTERN = {}
_P_INTERN = {}
DECL = {}           # leaf name -> Decl


class Decl:
    """What is known about a leaf: integer?, bounds (F, or function of the args returning a P), positivity, ..."""

    def __init__(self, name, isint=False, lb=None, ub=None, pos=False, binary=False, tag=None, sample=None, opaque=False,
                 rewrite=None):
        self.name, self.isint, self.lb, self.ub, self.pos, self.binary = name, isint or binary, lb, ub, pos, binary
        self.tag = tag or name
        self.sample, self.opaque, self.rewrite = sample, opaque, rewrite
        if binary:
            self.lb, self.ub = F(0), F(1)


def declare(name, **kw):
    DECL[name] = Decl(name, **kw)
    return DECL[name]


class Atom:
    __slots__ = ("kind", "args", "id", "isint", "ind", "decl", "_deep", "_names", "lvl", "opaque")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self.decl = None
        self.isint = self.ind = self.opaque = False
        self._deep = None
        self._names = None
        self.lvl = 0
        for a in args:
            if isinstance(a, P):
                if a.lvl > self.lvl:
                    self.lvl = a.lvl
                self.opaque = self.opaque or a.opaque

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, args):
    key = (kind,) + tuple(("P", a.id) if isinstance(a, P) else a for a in args)
    a = _ATOM_INTERN.get(key)
    if a is None:
        a = Atom(kind, args)
        a.id = len(ATOMS)
        ATOMS.append(a)
        _ATOM_INTERN[key] = a
        if kind == "leaf":
            d = DECL.get(args[0])
            if d is None:
                d = declare(args[0])
            a.decl = d
            a.isint, a.ind = d.isint, d.binary
            a.opaque = a.opaque or d.opaque
        elif kind == "bv":
            a.isint = True
            a.lvl = args[0]
        elif kind in ("ge", "eq", "any"):
            a.isint = a.ind = True
        elif kind in ("floor", "fdiv", "count", "sel", "rank", "argmax", "argmaxd", "wrap8", "wrap16", "wrapu"):
            a.isint = True
        elif kind == "mod":
            a.isint = all(x.isint() for x in args)
        elif kind in ("max", "maxd"):
            ps = [x for x in args if isinstance(x, P)]
            a.isint = all(x.isint() for x in (ps if kind == "max" else ps[:1]))
        elif kind == "sum":
            a.isint = args[0].isint()
        if kind in ("sum", "argmaxd", "maxd", "any", "count", "sel", "rank"):
            # body's own bound variable is closed here; level stays as marker for fresh binder names
            a.lvl = max(x.lvl for x in args if isinstance(x, P))
    return a


class P:
    __slots__ = ("t", "id", "lvl", "_int", "_deep", "_names", "opaque", "_nn")

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F(0))

    def isint(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if not ATOMS[a].isint or e < 0 or e.denominator != 1:
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def __add__(self, o):
        return padd(self, lift_const(o))

    __radd__ = __add__

    def __neg__(self):
        return pscale(self, F(-1))

    def __sub__(self, o):
        return padd(self, pscale(lift_const(o), F(-1)))

    def __rsub__(self, o):
        return padd(lift_const(o), pscale(self, F(-1)))

    def __mul__(self, o):
        return pmul(self, lift_const(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return pmul(self, ppow(lift_const(o), F(-1)))

    def __rtruediv__(self, o):
        return pmul(lift_const(o), ppow(self, F(-1)))

    def __pow__(self, o):
        return ppow(self, o)

    def __repr__(self):
        return show(self)

    # interned: identity equality / hash


def mkP(terms):
    terms = {m: c for m, c in terms.items() if c}
    key = frozenset(terms.items())
    p = _P_INTERN.get(key)
    if p is None:
        p = P()
        p.t = terms
        p.id = len(_P_INTERN)
        p._int = p._deep = p._names = p._nn = None
        lvl = 0
        op = False
        for m in terms:
            for a, _ in m:
                A = ATOMS[a]
                if A.lvl > lvl:
                    lvl = A.lvl
                op = op or A.opaque
        p.lvl = lvl
        p.opaque = op
        _P_INTERN[key] = p
    return p


def lift_const(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, F)):
        return mkP({(): F(x)})
    if isinstance(x, float):
        return mkP({(): F(repr(x))})
    raise TypeError(f"not a number: {x!r}")


C = lift_const
ZERO = mkP({})
ONE = mkP({(): F(1)})


def atomP(a):
    return mkP({((a.id, F(1)),): F(1)})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m)
        r[m] = c if v is None else v + c
    return mkP(r)


def psum(ps):
    r = {}
    for p in ps:
        for m, c in p.t.items():
            v = r.get(m)
            r[m] = c if v is None else v + c
    return mkP(r)


def pscale(a, c):
    if c == 1:
        return a
    return mkP({m: k * c for m, k in a.t.items()})


_MONO = {}


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if len(a.t) > len(b.t):
        a, b = b, a
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            for m, c in mono_mul(m1, m2):
                v = r.get(m)
                c = c * c1 * c2
                r[m] = c if v is None else v + c
    return mkP(r)


def mono_mul(m1, m2):
    """product of two monomials, as a list of (monomial, coefficient)"""
    if not m1:
        return ((m2, F(1)),)
    if not m2:
        return ((m1, F(1)),)
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = _MONO.get(key)
    if r is None:
        r = _MONO[key] = _mono_mul(m1, m2)
    return r


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


def mono_norm(d):
    """normalise a product given as {atom id: exponent}; list of (mono, coeff)"""
    coeff = F(1)
    dirs = {}
    expand = None
    leafeq = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        A = ATOMS[a]
        if A.kind == "num":
            k = math.floor(e)
            if k:
                coeff *= A.args[0].const() ** k
                if e == k:
                    del d[a]
                else:
                    d[a] = e - k
            continue
        if A.ind:
            d[a] = F(1)
            if A.kind in ("ge", "eq"):
                dirs.setdefault(A.args[0].id, []).append(A)
            elif A.kind == "leaf":
                leafeq.append((A, ONE))
        elif A.kind == "grp" and e > 0 and e.denominator == 1:
            expand = expand or []
            expand.append((a, e))
    for lst in dirs.values():
        if len(lst) > 1:
            eqs = [x for x in lst if x.kind == "eq"]
            if eqs:
                t = eqs[0].args[1]
                for x in lst:
                    if x is eqs[0]:
                        continue
                    if x.kind == "eq" or x.args[1] > t:
                        return ()
                    del d[x.id]
                lst = [eqs[0]]
            else:
                best = max(lst, key=lambda x: x.args[1])
                for x in lst:
                    if x is not best:
                        del d[x.id]
                lst = [best]
        x = lst[0]
        if x.kind == "eq":
            s = single_atom(x.args[0])
            if s is not None and s.kind == "leaf":
                leafeq.append((s, C(x.args[1])))
    # [x == c] * f(x)  ->  [x == c] * f(c)
    sub = None
    for leaf, val in leafeq:
        if leaf.ind:
            own = leaf.id
        else:
            own = None
        for a in d:
            if a == own:
                continue
            A = ATOMS[a]
            if A.kind in ("ge", "eq") and A.args[0] is atomP(leaf):
                continue
            if a == leaf.id or leaf.id in atom_deep(A):
                sub = sub or {}
                sub[leaf.id] = val
                break
    if sub:
        keep, rest = {}, []
        for a, e in d.items():
            A = ATOMS[a]
            if (A.ind and A.kind == "leaf" and a in sub) or (
                    A.kind in ("ge", "eq") and single_atom(A.args[0]) is not None and single_atom(A.args[0]).id in sub):
                keep[a] = e
            elif a in sub or any(k in atom_deep(A) for k in sub):
                rest.append(ppow(subst_atom(A, sub), e))
            else:
                keep[a] = e
        p = mkP({tuple(sorted(keep.items())): coeff})
        for q in rest:
            p = pmul(p, q)
        return tuple(p.t.items())
    if expand:
        for a, e in expand:
            del d[a]
        p = mkP({tuple(sorted(d.items())): coeff})
        for a, e in expand:
            for _ in range(int(e)):
                p = pmul(p, ATOMS[a].args[0])
        return tuple(p.t.items())
    return ((tuple(sorted(d.items())), coeff),)


def single_atom(p):
    """the atom x when p is exactly x"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


# ------------------------------------------------------------------ traversal
def atom_deep(A):
    if A._deep is None:
        s = set()
        for x in A.args:
            if isinstance(x, P):
                s |= p_deep(x)
        A._deep = frozenset(s)
    return A._deep


def p_deep(p):
    """ids of all atoms occurring anywhere in p"""
    if p._deep is None:
        s = set()
        for m in p.t:
            for a, _ in m:
                s.add(a)
                s |= atom_deep(ATOMS[a])
        p._deep = frozenset(s)
    return p._deep


def leaf_names(p):
    if p._names is None:
        p._names = frozenset(ATOMS[a].decl.tag for a in p_deep(p) if ATOMS[a].kind == "leaf")
    return p._names


def opaque_in(p):
    return p.opaque or any(n.startswith("opq:") for n in leaf_names(p))


def leaf_atoms(p):
    return [ATOMS[a] for a in p_deep(p) if ATOMS[a].kind == "leaf"]


def map_atoms(p, fn, memo):
    """rebuild p; fn(atom) returns P to replace it, or None to recurse"""
    r = memo.get(p.id)
    if r is not None:
        return r
    acc = []
    plain = {}
    for m, c in p.t.items():
        ch = None
        for a, e in m:
            A = ATOMS[a]
            q = _map_atom(A, fn, memo)
            if q is not A:
                ch = ch or []
                ch.append((a, q, e))
        if ch is None:
            plain[m] = c
        else:
            chd = {a for a, _, _ in ch}
            q = mkP({tuple((a, e) for a, e in m if a not in chd): c})
            for a, nq, e in ch:
                q = pmul(q, ppow(nq, e))
            acc.append(q)
    if not acc:
        r = p
    else:
        acc.append(mkP(plain))
        r = psum(acc)
    memo[p.id] = r
    return r


def _map_atom(A, fn, memo):
    key = ("a", A.id)
    r = memo.get(key)
    if r is not None:
        return r
    r = fn(A)
    if r is None:
        new = []
        changed = False
        for x in A.args:
            if isinstance(x, P):
                y = map_atoms(x, fn, memo)
                changed = changed or y is not x
                new.append(y)
            else:
                new.append(x)
        r = rebuild(A.kind, new) if changed else A
        if isinstance(r, P) and single_atom(r) is A:
            r = A
    memo[key] = r
    return r


def subst(p, mp):
    """mp: {atom id: P}"""
    if not mp or not any(k in p_deep(p) for k in mp):
        return p
    ids = frozenset(mp)

    def fn(A):
        r = mp.get(A.id)
        if r is not None:
            return r
        if not (ids & atom_deep(A)):
            return A
        return None
    return map_atoms(p, fn, {})


def subst_atom(A, mp):
    return subst(atomP(A), mp)


def subst_fn(p, fn):
    return map_atoms(p, fn, {})


# ------------------------------------------------------------------ bounds
def atom_bounds(A):
    """list of lower-bound terms, list of upper-bound terms"""
    k = A.kind
    if A.ind:
        return [ZERO], [ONE]
    if k == "leaf":
        d = A.decl
        lo, hi = [], []
        if d.lb is not None:
            lo.append(C(d.lb(*A.args[1:]) if callable(d.lb) else d.lb))
        elif d.pos:
            lo.append(ZERO)
        if d.ub is not None:
            hi.append(C(d.ub(*A.args[1:]) if callable(d.ub) else d.ub))
        return lo, hi
    if k == "bv":
        return [ZERO], [A.args[1] - 1]
    if k == "exp":
        return [ZERO], []
    if k == "max":
        return list(A.args), []
    if k == "floor":
        return [A.args[0] - 1], [A.args[0]]
    if k == "mod":
        return [ZERO], [A.args[1] - 1] if A.isint else [A.args[1]]
    if k == "fdiv":
        x, q = A.args
        if not (nonneg(x) and nonneg(q - 1)):
            return [], []
        hi = [x]
        for c in range(1, 5):
            if nonneg(pscale(q, F(c)) - 1 - x):
                hi = [C(c - 1)]
                break
        else:
            r = fdiv_ub(x, q)
            if r is not None:
                hi = [r]
        return [ZERO], hi
    if k == "argmax":
        return [ZERO], [C(len(A.args) - 1)]
    if k == "argmaxd":
        return [ZERO], [A.args[1] - 1]
    if k == "count":
        return [ZERO], [A.args[1]]
    if k == "sel":
        return [ZERO], [A.args[1] - 1]
    if k == "rank":
        return [ZERO], [A.args[1] - 1]
    if k == "sum":
        lo = [ZERO] if nonneg(A.args[0]) else []
        hi = []
        if nonneg(ONE - A.args[0]) and A.args[0].isint() and lo:
            hi = [A.args[1]]
        return lo, hi
    if k == "wrap8":
        return [C(-128)], [C(127)]
    if k == "wrap16":
        return [C(-32768)], [C(32767)]
    if k == "wrapu":
        return [ZERO], [C(2 ** int(A.args[1]) - 1)]
    if k == "sqrtabs":
        return [ZERO], []
    return [], []


def fdiv_ub(x, q):
    """symbolic upper bound of x // q for a leaf x bounded by m*q - 1"""
    s = single_atom(x)
    if s is None:
        return None
    for u in atom_bounds(s)[1]:
        r = exact_div(u + 1, q)
        if r is not None and r.isint():
            return r - 1
    return None


def atom_pos(A):
    if A.kind == "leaf":
        return A.decl.pos or (not A.ind and any(q.is_const() and q.const() > 0 for q in atom_bounds(A)[0]))
    if A.kind in ("exp", "num"):
        return True
    if A.kind == "max":
        return any(positive(x) for x in A.args)
    if A.kind == "grp":
        return positive(A.args[0])
    if A.kind == "sum":
        return positive(A.args[0]) and nonneg(A.args[1] - 1)
    return False


def atom_nonneg(A):
    if A.ind or atom_pos(A):
        return True
    if A.kind == "grp":
        return nonneg(A.args[0])
    if A.kind == "max":
        return any(nonneg(x) for x in A.args)
    if A.kind == "leaf" and A.decl.lb is not None and not callable(A.decl.lb) and F(A.decl.lb) >= 0 if not isinstance(A.decl.lb if A.decl else None, P) else False:
        return True
    return any(nonneg(x) for x in atom_bounds(A)[0] if x is not atomP(A))


def mono_sign(m):
    """'+' positive, '0+' nonneg, None unknown"""
    s = "+"
    for a, e in m:
        A = ATOMS[a]
        if e.denominator == 1 and int(e) % 2 == 0 and e > 0:
            if not atom_pos(A):
                s = "0+"
            continue
        if atom_pos(A):
            continue
        if atom_nonneg(A):
            s = "0+"
            continue
        return None
    return s


_NN = {}
_DEPTH = [0]
_BUDGET = [0]
PROVE_TERMS = 24


def nonneg(p):
    return _prove(p, False)


def positive(p):
    return _prove(p, True)


def _prove(p, strict):
    if p.is_const():
        return p.const() > 0 if strict else p.const() >= 0
    key = (p.id, strict)
    r = _NN.get(key)
    if r is None:
        if _DEPTH[0] == 0:
            _BUDGET[0] = 120
        elif _DEPTH[0] > 10:
            return False
        _BUDGET[0] -= 1
        if _BUDGET[0] < 0:
            return False
        _NN[key] = False
        _DEPTH[0] += 1
        try:
            r = _prove2(p, strict)
        finally:
            _DEPTH[0] -= 1
        if not r and _BUDGET[0] < 0 and _DEPTH[0]:
            del _NN[key]
        else:
            _NN[key] = r
    return r


def _prove2(p, strict):
    if strict and p.isint():
        return nonneg(p - 1)
    allok, anypos = True, False
    for m, c in p.t.items():
        s = mono_sign(m)
        if c < 0 or s is None:
            allok = False
            break
        if s == "+":
            anypos = True
    if allok and (anypos or not strict):
        return True
    if len(p.t) > PROVE_TERMS:
        return False
    # eliminate one atom by its bounds; newest atoms first (bounds refer to older ones)
    cand = sorted({a for m in p.t for a, _ in m}, reverse=True)
    for a in cand:
        q, r, ok = {}, {}, True
        for m, c in p.t.items():
            dm = dict(m)
            e = dm.pop(a, None)
            if e is None:
                r[m] = c
            elif e == 1:
                q[tuple(sorted(dm.items()))] = c
            else:
                ok = False
                break
        if not ok:
            continue
        q, r = mkP(q), mkP(r)
        A = ATOMS[a]
        lo, hi = atom_bounds(A)
        if A.kind == "max":
            if nonneg(q):
                if any(_prove(pmul(q, x) + r, strict) for x in lo):
                    return True
            elif nonneg(-q):
                if all(_prove(pmul(q, x) + r, strict) for x in A.args):
                    return True
            continue
        if A.ind and A.kind == "ge":
            if nonneg(q) and _prove(r, strict) and True:
                return True
            continue
        if lo and nonneg(q):
            for x in lo:
                if a not in p_deep(x) and _prove(pmul(q, x) + r, strict):
                    return True
        elif hi and nonneg(-q):
            for x in hi:
                if a not in p_deep(x) and _prove(pmul(q, x) + r, strict):
                    return True
    return False


# ------------------------------------------------------------------ leaves
def leaf(name, *args):
    d = DECL.get(name)
    args = tuple(C(a) if not isinstance(a, str) else a for a in args)
    if args and any(isinstance(a, P) and has_top_ind(a) for a in args):
        for i, a in enumerate(args):
            if isinstance(a, P) and has_top_ind(a):
                r = lift(a, lambda q, i=i: leaf(name, *args[:i], q, *args[i + 1:]))
                if r is not None:
                    return r
                break
    if d is not None and d.rewrite is not None:
        r = d.rewrite(*args)
        if r is not None:
            return r
    return atomP(mk_atom("leaf", (name,) + args))


_FRESH = [0]


def fresh(prefix, **kw):
    _FRESH[0] += 1
    name = f"{prefix}#{_FRESH[0]}"
    declare(name, **kw)
    return leaf(name)


def fresh_index(n, prefix="i"):
    n = C(n)
    return fresh(prefix, isint=True, lb=F(0), ub=n - 1)


# ------------------------------------------------------------------ lifting of indicators out of function arguments
def top_inds(p):
    s = []
    for m in p.t:
        for a, _ in m:
            A = ATOMS[a]
            if A.kind in ("ge", "eq", "any") and A not in s:
                s.append(A)
    return s


def has_top_ind(p):
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind in ("ge", "eq"):
                return True
    return False


def regions(atoms):
    """consistent truth assignments of indicator atoms: list of (indicator P, {atom id: 0/1})"""
    out = [(ONE, {})]
    for A in atoms:
        x = atomP(A)
        nxt = []
        for ind, asg in out:
            y = pmul(ind, x)
            if y.t:
                nxt.append((y, {**asg, A.id: ONE}))
            z = ind - y
            if z.t and not exhausted(A, asg):
                nxt.append((z, {**asg, A.id: ZERO}))
        out = nxt
    return out


def exhausted(A, asg):
    """would A being false exclude every value of its small-range leaf?"""
    if A.kind != "eq":
        return False
    s = single_atom(A.args[0])
    rg = small_range(s) if s is not None else None
    if rg is None:
        return False
    out = {A.args[1]}
    for a, v in asg.items():
        B = ATOMS[a]
        if B.kind == "eq" and B.args[0] is A.args[0] and v is ZERO:
            out.add(B.args[1])
    return all(v in out for v in range(rg[0], rg[1] + 1))


def region_subst(asg):
    """substitution for a region: truth values, plus leaf := constant where an eq holds"""
    mp = dict(asg)
    for a, v in asg.items():
        A = ATOMS[a]
        if A.kind == "eq" and v is ONE:
            s = single_atom(A.args[0])
            if s is not None and s.kind in ("leaf", "bv"):
                mp[s.id] = C(A.args[1])
    return mp


LIFT_CAP = 16


def lift(p, f):
    """f(p) as sum over the regions of p's indicators; None when there are none or too many"""
    inds = top_inds(p)
    inds = [A for A in inds if A.kind in ("ge", "eq")]
    if not inds:
        return None
    if len(inds) > 10:
        return None
    regs = regions(sorted(inds, key=lambda A: A.id))
    if len(regs) > LIFT_CAP:
        return None
    acc = []
    groups = {}
    for ind, asg in regs:
        q = subst(p, region_subst(asg))
        groups.setdefault(q.id, [q, []])[1].append(ind)
    for q, lst in groups.values():
        acc.append(pmul(psum(lst), f(q)))
    return psum(acc)


# ------------------------------------------------------------------ comparisons
def norm_dir(p):
    """p = s*(d - t) with s = +1/-1 up to a positive factor; returns d, t, s"""
    c = p.const()
    terms = {m: k for m, k in p.t.items() if m != ()}
    lead = min(terms)
    k = terms[lead]
    if p.isint() or all(ATOMS[a].isint and e > 0 and e.denominator == 1 for m in terms for a, e in m):
        den = 1
        for v in terms.values():
            den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        for v in terms.values():
            g = math.gcd(g, abs(int(v * den)))
        scale = F(g, den)
    else:
        scale = abs(k)
    s = 1 if k > 0 else -1
    d = mkP({m: v / (scale * s) for m, v in terms.items()})
    return d, -c / (scale * s), s


def strip_positive(p):
    """sign-equivalent simplification of a product: drop positive factors of a single monomial / common content"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        keep = []
        for a, e in m:
            A = ATOMS[a]
            if atom_pos(A):
                continue
            if A.ind:
                keep.append((a, F(1)))
                continue
            keep.append((a, e))
        if len(keep) != len(m):
            return mkP({tuple(keep): F(1) if c > 0 else F(-1)})
        return p
    if () in p.t:
        return p
    common = None
    for m in p.t:
        s = {(a, e) for a, e in m if atom_pos(ATOMS[a])}
        common = s if common is None else common & s
    if common:
        return mkP({tuple(x for x in m if x not in common): c for m, c in p.t.items()})
    return p


def ge(p):
    """[p >= 0]"""
    if p.is_const():
        return ONE if p.const() >= 0 else ZERO
    if has_top_ind(p):
        r = lift(p, ge)
        if r is not None:
            return r
    p = strip_positive(p)
    if p.is_const():
        return ONE if p.const() >= 0 else ZERO
    if nonneg(p):
        return ONE
    if positive(-p):
        return ZERO
    fd = fdiv_split(p)
    if fd is not None:
        (x, q), s, r = fd
        # s=+1: x//q + r >= 0 <=> x >= -r*q ; s=-1: x//q <= r <=> x < q*(r+1)
        return ge(x + pmul(r, q)) if s > 0 else ge(pmul(q, r + 1) - 1 - x)
    d, t, s = norm_dir(p)
    if s > 0:
        return mk_ge(d, t)
    # d <= t
    if d.isint():
        return ONE - mk_ge(d, F(math.floor(t) + 1))
    return ONE - mk_ge(d, t) + mk_eq(d, t)


def gt(p):
    """[p > 0]"""
    return ONE - ge(-p)


def mk_ge(d, t):
    if d.is_const():
        return ONE if d.const() >= t else ZERO
    if d.isint():
        t = F(math.ceil(t))
        if nonneg(d - t):
            return ONE
        if nonneg(C(t - 1) - d):
            return ZERO
        if nonneg(d - (t - 1)):
            return ONE - mk_eq(d, t - 1)
        if nonneg(C(t) - d):
            return mk_eq(d, t)
    else:
        if nonneg(d - t):
            return ONE
        if positive(C(t) - d):
            return ZERO
        if nonneg(C(t) - d):
            return mk_eq(d, t)
    return atomP(mk_atom("ge", (d, F(t))))


def eq(p):
    """[p == 0]"""
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if has_top_ind(p):
        r = lift(p, eq)
        if r is not None:
            return r
    # single monomial: zero iff one factor is zero
    p = strip_positive(p)
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) > 1 or m[0][1] != 1:
            r = ONE
            for a, e in m:
                r = pmul(r, ONE - eq(atomP(ATOMS[a])))
            return ONE - r
    if positive(p) or positive(-p):
        return ZERO
    fd = fdiv_split(p)
    if fd is not None:
        (x, q), s, r = fd
        v = -r if s > 0 else r
        return pmul(ge(x - pmul(v, q)), ge(pmul(q, v + 1) - 1 - x))
    d, t, s = norm_dir(p)
    return mk_eq(d, t)


def fdiv_split(p):
    """p = s*(x//q) + r with integer r free of floor divisions: ((x, q), s, r)"""
    hit = None
    for m, c in p.t.items():
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "fdiv":
                if hit is not None or len(m) != 1 or e != 1 or abs(c) != 1 or not A.args[0].isint():
                    return None
                hit = (A, int(c), m)
    if hit is None:
        return None
    A, s, m = hit
    r = mkP({k: c for k, c in p.t.items() if k != m})
    if not r.isint():
        return None
    return A.args, s, r


def mk_eq(d, t):
    if d.is_const():
        return ONE if d.const() == t else ZERO
    if d.isint() and t.denominator != 1:
        return ZERO
    s = single_atom(d)
    if s is not None and s.ind:
        return atomP(s) if t == 1 else (ONE - atomP(s) if t == 0 else ZERO)
    if positive(d - t) or positive(C(t) - d):
        return ZERO
    return atomP(mk_atom("eq", (d, F(t))))


def small_range(A):
    """(lo, hi) of an integer leaf with at most eight values"""
    if A.kind != "leaf" or not A.isint:
        return None
    lo, hi = A.decl.lb, A.decl.ub
    if isinstance(lo, P):
        lo = lo.const() if lo.is_const() else None
    if isinstance(hi, P):
        hi = hi.const() if hi.is_const() else None
    if lo is None or hi is None or callable(lo) or callable(hi) or hi - lo > 7:
        return None
    return int(lo), int(hi)


def tidy(p):
    """use sum_v [x == v] = 1 over a small range of x when it shortens p"""
    dirs = {}
    for m in p.t:
        for a, _ in m:
            A = ATOMS[a]
            if A.kind == "eq":
                dirs.setdefault(A.args[0].id, (A.args[0], {}))[1][A.args[1]] = A
    for d, eqs in dirs.values():
        s = single_atom(d)
        if s is None or s.kind != "leaf" or not s.isint:
            continue
        rg = small_range(s)
        if rg is None:
            continue
        lo, hi = rg
        n = hi - lo + 1
        if len(eqs) != n:
            continue
        last = eqs[F(int(hi))]
        rep = ONE - psum([atomP(eqs[F(v)]) for v in range(int(lo), int(hi))])
        acc = {}
        for m, c in p.t.items():
            if any(a == last.id for a, _ in m):
                q = pmul(mkP({tuple(x for x in m if x[0] != last.id): c}), rep)
            else:
                q = mkP({m: c})
            for m2, c2 in q.t.items():
                acc[m2] = acc.get(m2, 0) + c2
        q = mkP(acc)
        if len(q.t) < len(p.t):
            p = q
    return p


def b_not(a):
    return ONE - a


def b_and(a, b):
    return pmul(a, b)


def b_or(a, b):
    return a + b - pmul(a, b)


def select(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    m1 = implied(c)
    if m1:
        a = subst(a, m1)
    m0 = implied(ONE - c)
    if m0:
        b = subst(b, m0)
    if a is b:
        return a
    return pmul(c, a) + pmul(ONE - c, b)


def implied(c):
    """leaf := constant facts implied by c being 1 (c a single product of indicators)"""
    if len(c.t) != 1:
        if len(c.t) == 2 and c.const() == 1:      # 1 - x, x a binary leaf
            x = single_atom(ONE - c)
            if x is not None and x.ind:
                mp = {x.id: ZERO}
                return mp
        return None
    (m, k), = c.t.items()
    if k != 1:
        return None
    mp = {}
    for a, e in m:
        A = ATOMS[a]
        if A.ind:
            mp[a] = ONE
        if A.kind == "eq":
            s = single_atom(A.args[0])
            if s is not None and s.kind in ("leaf", "bv"):
                mp[s.id] = C(A.args[1])
    return mp


# ------------------------------------------------------------------ max / min
def pmax(*args):
    flat = []
    for a in args:
        s = single_atom(a)
        if s is not None and s.kind == "max":
            flat.extend(s.args)
        else:
            flat.append(a)
    u = []
    for a in flat:
        if a not in u:
            u.append(a)
    keep = []
    for i, a in enumerate(u):
        dom = False
        for j, b in enumerate(u):
            if i == j or b is None:
                continue
            if nonneg(b - a) and not (j > i and nonneg(a - b)):
                dom = True
                break
        if not dom:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    # common nonnegative factor
    if ZERO not in keep:
        common = None
        for a in keep:
            for m in a.t:
                s = {a2 for a2, e in m if e == 1 and atom_nonneg(ATOMS[a2])}
                common = s if common is None else common & s
                if not common:
                    break
            if not common:
                break
    else:
        common = None
        for a in keep:
            if a is ZERO:
                continue
            for m in a.t:
                s = {a2 for a2, e in m if e == 1 and atom_nonneg(ATOMS[a2])}
                common = s if common is None else common & s
    if common:
        g = {a: F(1) for a in common}
        gm = tuple(sorted(g.items()))
        red = [mkP({tuple((a2, e) for a2, e in m if a2 not in common): c for m, c in a.t.items()}) for a in keep]
        return pmul(mkP({gm: F(1)}), pmax(*red))
    keep.sort(key=lambda x: x.id)
    return atomP(mk_atom("max", tuple(keep)))


def pmin(*args):
    return -pmax(*[-a for a in args])


# ------------------------------------------------------------------ exp / log / powers
def exp(p):
    if not p.t:
        return ONE
    if has_top_ind(p):
        r = lift(p, exp)
        if r is not None:
            return r
    out = ONE
    for m, c in sorted(p.t.items()):
        if m == ():
            base = atomP(mk_atom("exp", (ONE,)))
            out = pmul(out, ppow(base, c))
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
            out = pmul(out, ppow(ATOMS[m[0][0]].args[0], c))
            continue
        out = pmul(out, ppow(atomP(mk_atom("exp", (mkP({m: F(1)}),))), c))
    return out


def log(p):
    if p is ONE:
        return ZERO
    if has_top_ind(p):
        r = lift(p, log)
        if r is not None:
            return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        acc = [] if c == 1 else [atomP(mk_atom("log", (C(c),)))]
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "exp":
                acc.append(pscale(A.args[0], e))
            else:
                acc.append(pscale(atomP(mk_atom("log", (A.args[0] if A.kind == "grp" else atomP(A),))), e))
        return psum(acc)
    cont, prim = content(p)
    if cont is not ONE:
        return log(cont) + log(prim)
    return atomP(mk_atom("log", (p,)))


def content(p):
    """p = content * primitive; content: rational > 0 and common positive-atom factors"""
    common = None
    for m in p.t:
        s = {a: e for a, e in m if atom_pos(ATOMS[a])}
        common = s if common is None else {a: min(e, s[a]) for a, e in common.items() if a in s}
        if not common:
            break
    common = common or {}
    common = {a: e for a, e in common.items() if e}
    lead = p.t[min(p.t)]
    k = abs(lead)
    cm = tuple(sorted(common.items()))
    if not common and k == 1:
        return ONE, p
    inv = tuple((a, -e) for a, e in cm)
    prim = pmul(mkP({inv: 1 / k}), p) if common else pscale(p, 1 / k)
    return mkP({cm: k}), prim


def ppow(b, e):
    """b ** e"""
    if isinstance(e, P):
        if e.is_const():
            e = e.const()
        else:
            if has_top_ind(e):
                r = lift(e, lambda q: ppow(b, q))
                if r is not None:
                    return r
            if has_top_ind(b):
                r = lift(b, lambda q: ppow(q, e))
                if r is not None:
                    return r
            if b is ONE:
                return ONE
            return exp(pmul(e, log(b)))
    if isinstance(e, int):
        e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if e.denominator == 1 and e > 0:
        if len(b.t) <= 1 or e <= 6:
            r = b
            for _ in range(int(e) - 1):
                r = pmul(r, b)
            return r
    if not b.t:
        return atomP(mk_atom("uf", ("zeropow", C(e))))
    if has_top_ind(b):
        r = lift(b, lambda q: ppow(q, e))
        if r is not None:
            return r
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if e.denominator == 1:
            k = C(c ** int(e))
        elif c == 1:
            k = ONE
        else:
            k = None
            if c > 0:
                rt = _rational_pow(c, e)
                if rt is not None:
                    k = C(rt)
            if k is None and c > 0:
                k = num_pow(c.numerator, e)
                if c.denominator != 1:
                    k = pmul(k, num_pow(c.denominator, -e))
            elif k is None:
                k = atomP(mk_atom("cpow", (C(c), C(e))))
        d = {}
        ok = True
        for a, x in m:
            d[a] = x * e
            if x.denominator == 1 and int(x) % 2 == 0 and e.denominator != 1 and not atom_pos(ATOMS[a]):
                ok = False
        if not ok:
            return atomP(mk_atom("uf", ("pow", b, C(e))))
        r = mkP(dict(mono_norm(d)))
        return pmul(k, r)
    cont, prim = content(b)
    if cont is not ONE:
        return pmul(ppow(cont, e), ppow(prim, e))
    g = mk_atom("grp", (b,))
    return mkP({((g.id, e),): F(1)})


def num_pow(n, e):
    """n ** e for a positive integer n and rational e"""
    if n == 1:
        return ONE
    A = mk_atom("num", (C(n),))
    return mkP(dict(mono_norm({A.id: e})))


def _rational_pow(c, e):
    n = round(float(c.numerator) ** (1 / e.denominator))
    d = round(float(c.denominator) ** (1 / e.denominator))
    if n ** e.denominator == c.numerator and d ** e.denominator == c.denominator:
        return F(n, d) ** int(e.numerator)
    return None


# ------------------------------------------------------------------ integer division
def floor(p):
    if p.isint():
        return p
    if p.is_const():
        return C(math.floor(p.const()))
    if has_top_ind(p):
        r = lift(p, floor)
        if r is not None:
            return r
    # integer-valued summands move out
    a, b = {}, {}
    for m, c in p.t.items():
        q = mkP({m: c})
        (a if q.isint() else b)[m] = c
    if a:
        return mkP(a) + floor(mkP(b))
    if nonneg(p) and positive(ONE - p):
        return ZERO
    return atomP(mk_atom("floor", (p,)))


def trunc(p):
    if p.isint():
        return p
    if has_top_ind(p):
        r = lift(p, trunc)
        if r is not None:
            return r
    if nonneg(p):
        return floor(p)
    if nonneg(-p):
        return -floor(-p)
    g = ge(p)
    return select(g, floor(p), -floor(-p))


def divmod_p(p, q):
    """(p // q, p % q) for q > 0"""
    if q is ONE and p.isint():
        return p, ZERO
    if p.is_const() and q.is_const() and q.const():
        k = math.floor(p.const() / q.const())
        return C(k), C(p.const() - k * q.const())
    if has_top_ind(p):
        r1 = lift(p, lambda x: divmod_p(x, q)[0])
        if r1 is not None:
            return r1, lift(p, lambda x: divmod_p(x, q)[1])
    if len(q.t) == 1:
        (qm, qc), = q.t.items()
        quo, rem = {}, {}
        qd = dict(qm)
        for m, c in p.t.items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in qd.items()) and (c / qc).denominator == 1:
                nm = dict(d)
                for a, e in qd.items():
                    nm[a] -= e
                    if nm[a] == 0:
                        del nm[a]
                quo[tuple(sorted(nm.items()))] = c / qc
            else:
                rem[m] = c
        quo, rem = mkP(quo), mkP(rem)
        if not quo.isint():
            quo, rem = ZERO, p
    else:
        # linear q: try exact division by the leading monomial
        quo, rem = poly_div(p, q)
        if not quo.isint():
            quo, rem = ZERO, p
    if nonneg(rem) and nonneg(q - rem - 1 if (q - rem).isint() else q - rem) :
        if (q - rem).isint() or positive(q - rem):
            return quo, rem
    neg = -rem
    if positive(neg) and nonneg(q + rem):
        return quo - 1, rem + q
    if not rem.t:
        return quo, ZERO
    if rem.isint() and q.isint() and nonneg(rem + q) and nonneg(q - rem - 1):
        g = ge(rem)
        return quo - ONE + g, rem + pmul(q, ONE - g)
    return quo + atomP(mk_atom("fdiv", (rem, q))), atomP(mk_atom("mod", (rem, q)))


def poly_div(p, q):
    """multivariate division by the monomial of q with most atoms; returns quotient, remainder"""
    lead = max((m for m in q.t), key=lambda m: (sum(e for _, e in m), m))
    lc = q.t[lead]
    if not lead:
        return ZERO, p
    quo = ZERO
    rem = p
    whole = p.isint() and q.isint()
    for _ in range(60):
        hit = None
        for m, c in rem.t.items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lead) and not (whole and abs(c) < abs(lc)):
                hit = (m, c)
                break
        if hit is None:
            break
        m, c = hit
        d = dict(m)
        for a, e in lead:
            d[a] -= e
            if d[a] == 0:
                del d[a]
        # integer operands: whole multiples only
        f = mkP({tuple(sorted(d.items())): F(math.trunc(c / lc)) if whole else c / lc})
        quo = quo + f
        rem = rem - pmul(f, q)
    return quo, rem


def exact_div(p, q):
    """p / q as a polynomial if it divides exactly, else None"""
    if q.is_const() and q.const():
        return pscale(p, 1 / q.const())
    if len(q.t) == 1:
        r = pmul(p, ppow(q, F(-1)))
        return r if all(e > 0 for m in r.t for _, e in m) else None
    quo, rem = poly_div(p, q)
    return quo if not rem.t else None


# ------------------------------------------------------------------ binders
def _bind(body, k, n):
    """rename fresh index k in body to a canonical bound variable; returns body', bv atom"""
    lvl = body.lvl + 1
    bv = mk_atom("bv", (lvl, n))
    kk = single_atom(k)
    return subst(body, {kk.id: atomP(bv)}), bv


UNROLL = 8


def sumd(fn, n):
    n = C(n)
    if n.is_const() and n.const() <= UNROLL:
        return psum([fn(C(i)) for i in range(int(n.const()))])
    k = fresh_index(n)
    kid = single_atom(k).id
    return sum_bound(fn(k), k, n)


def sum_bound(body, k, n):
    kid = single_atom(k).id
    acc = {}
    for m, c in body.t.items():
        free, dep = [], []
        for a, e in m:
            (dep if a == kid or kid in atom_deep(ATOMS[a]) else free).append((a, e))
        fm = mkP({tuple(free): c})
        dm = mkP({tuple(dep): F(1)})
        acc.setdefault(dm.id, [dm, []])[1].append(fm)
    out = []
    for dm, fs in acc.values():
        f = psum(fs)
        if not dm.t:
            continue
        if dm is ONE:
            out.append(pmul(f, n))
            continue
        r = _solve_eq(dm, kid, n)
        if r is not None:
            out.append(pmul(f, r))
            continue
        b, bv = _bind(dm, k, n)
        out.append(pmul(f, atomP(mk_atom("sum", (b, n, bv.args[0])))))
    return psum(out)


def _solve_eq(dm, kid, n):
    """sum_k [k == e] g(k) = [0<=e<n] g(e)"""
    (m, c), = dm.t.items()
    for a, e in m:
        A = ATOMS[a]
        if A.kind == "eq" and kid in p_deep(A.args[0]):
            s = solve_linear(A.args[0] - A.args[1], kid)
            if s is None:
                continue
            rest = mkP({tuple(x for x in m if x[0] != a): F(1)})
            g = subst(rest, {kid: s})
            return pmul(pmul(ge(s), ge(n - 1 - s)), g)
    return None


def solve_linear(p, kid):
    """k from p == 0 when p = ±k + r, r free of k"""
    r = {}
    co = None
    for m, c in p.t.items():
        if m == ((kid, F(1)),):
            co = c
        else:
            for a, e in m:
                if a == kid or kid in atom_deep(ATOMS[a]):
                    return None
            r[m] = c
    if co is None or abs(co) != 1:
        return None
    return pscale(mkP(r), -1 / co)


def instantiate(A, v):
    """body of a binder atom at index v"""
    bv = mk_atom("bv", (A.args[2], A.args[1]))
    return subst(A.args[0], {bv.id: v})


def binder(kind, fn, n, *extra):
    """any / count / sel / rank / argmaxd / maxd over an index with body fn"""
    n = C(n)
    k = fresh_index(n)
    b, bv = _bind(fn(k), k, n)
    return mk_binder(kind, b, n, bv.args[0], *extra)


def mask_interval(body, n, lvl):
    """(A, B) when body = [A <= b < B] over b in [0, n), else None"""
    bv = mk_atom("bv", (lvl, n))
    b = atomP(bv)

    def lin(A):
        if A.kind != "ge":
            return None
        d = A.args[0] - A.args[1]
        co = d.t.get(((bv.id, F(1)),))
        r = mkP({m: c for m, c in d.t.items() if m != ((bv.id, F(1)),)})
        if co is None or abs(co) != 1 or bv.id in p_deep(r) or not r.isint():
            return None
        return (1, -r) if co > 0 else (-1, r)         # b >= -r | b <= r
    if body is ONE:
        return ZERO, n
    facs = []
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if c != 1:
            return None
        facs = [(ATOMS[a], False) for a, e in m]
    elif len(body.t) == 2:
        items = sorted(body.t.items(), key=lambda x: len(x[0]))
        (m1, c1), (m2, c2) = items
        if c1 != 1 or c2 != -1 or not set(m1) <= set(m2) or len(m2) != len(m1) + 1:
            return None
        (neg,) = set(m2) - set(m1)
        facs = [(ATOMS[a], False) for a, e in m1] + [(ATOMS[neg[0]], True)]
    else:
        return None
    lo, hi = ZERO, n
    for A, neg in facs:
        if A.kind == "eq" and not neg:
            e = solve_linear(A.args[0] - A.args[1], bv.id)
            if e is None or len(facs) != 1:
                return None
            return e, e + 1
        r = lin(A)
        if r is None:
            return None
        s, v = r
        if neg:
            s, v = (-1, v - 1) if s > 0 else (1, v + 1)
        if s > 0:
            lo = v if lo is ZERO else None
        else:
            hi = v + 1 if hi is n else None
        if lo is None or hi is None:
            return None
    if nonneg(lo) and nonneg(hi - lo) and nonneg(n - hi):
        return lo, hi
    return None


def mk_binder(kind, body, n, lvl, *extra):
    if kind in ("count", "sel", "rank"):
        iv = mask_interval(body, n, lvl)
        if iv is not None:
            if kind == "count":
                return iv[1] - iv[0]
            return extra[0] + iv[0] if kind == "sel" else extra[0] - iv[0]
    if kind == "any":
        if body.is_const():
            return pmul(body, ge(n - 1))
        return atomP(mk_atom("any", (body, n, lvl)))
    if kind == "count":
        if body.is_const():
            return pmul(body, n)
        return atomP(mk_atom("count", (body, n, lvl)))
    if kind == "sel":
        (j,) = extra
        if body is ONE:
            return j
        s = single_atom(j)
        if s is not None and s.kind == "rank" and s.args[0] is body and s.args[1] is n:
            return s.args[3]
        return atomP(mk_atom("sel", (body, n, lvl, j)))
    if kind == "rank":
        (j,) = extra
        if body is ONE:
            return j
        s = single_atom(j)
        if s is not None and s.kind == "sel" and s.args[0] is body and s.args[1] is n:
            return s.args[3]
        return atomP(mk_atom("rank", (body, n, lvl, j)))
    return atomP(mk_atom(kind, (body, n, lvl) + tuple(extra)))


def argmax(args):
    """index of the first maximum of a constant-length list"""
    if len(args) == 1:
        return ZERO
    return atomP(mk_atom("argmax", tuple(args)))


# ------------------------------------------------------------------ rebuild after substitution
def rebuild(kind, args):
    if kind == "leaf":
        return leaf(*args)
    if kind == "ge":
        return ge(args[0] - args[1])
    if kind == "eq":
        return eq(args[0] - args[1])
    if kind == "max":
        return pmax(*args)
    if kind == "exp":
        return exp(args[0])
    if kind == "log":
        return log(args[0])
    if kind == "grp":
        return args[0]
    if kind == "floor":
        return floor(args[0])
    if kind == "fdiv":
        return divmod_p(args[0], args[1])[0]
    if kind == "mod":
        return divmod_p(args[0], args[1])[1]
    if kind == "sum":
        body, n, lvl = args
        bv = mk_atom("bv", (lvl, n))
        if n.is_const() and n.const() <= UNROLL:
            return psum([subst(body, {bv.id: C(i)}) for i in range(int(n.const()))])
        return sum_rebind(body, n, lvl)
    if kind in ("any", "count", "sel", "rank", "argmaxd", "maxd"):
        return mk_binder(kind, *args)
    if kind == "argmax":
        return argmax(args)
    if kind == "wrap8":
        return wrap8(args[0])
    if kind == "wrap16":
        return wrap16(args[0])
    if kind == "r32":
        return r32(args[0])
    if kind == "wrapu":
        return wrapu(args[0], args[1])
    return atomP(mk_atom(kind, tuple(args)))


def sum_rebind(body, n, lvl):
    old = [ATOMS[a] for a in p_deep(body) if ATOMS[a].kind == "bv" and ATOMS[a].args[0] == lvl]
    k = fresh_index(n)
    return sum_bound(subst(body, {a.id: k for a in old}), k, n)


def wrap8(p):
    if nonneg(p + 128) and nonneg(C(127) - p):
        return p
    s = magnitude(p)
    if s is not None and s <= 127:
        return p
    if p.is_const():
        return C((int(p.const()) + 128) % 256 - 128)
    return atomP(mk_atom("wrap8", (p,)))


MODEL_SIZE = {"T": 120, "CAM": 100, "NT": 50, "E": 10, "lcb": 120, "init_exp_max": 100, "child_age_init_max": 100}


def magnitude(p, depth=0):
    """crude bound of |p| for models of the sizes in MODEL_SIZE (None: no bound known)"""
    tot = F(0)
    if depth > 6:
        return None
    for m, c in p.t.items():
        x = abs(c)
        for a, e in m:
            A = ATOMS[a]
            if A.ind:
                continue
            if A.kind == "leaf" and A.args[0] in MODEL_SIZE:
                y = F(MODEL_SIZE[A.args[0]])
            else:
                lo, hi = (A.decl.lb, A.decl.ub) if A.kind == "leaf" else ([ZERO], [A.args[1]]) if A.kind == "bv" else bounds_simple(A)
                lo, hi = [one_bound(b, A) for b in (lo, hi)]
                if lo is None or hi is None:
                    return None
                lo, hi = magnitude(lo, depth + 1), magnitude(hi, depth + 1)
                if lo is None or hi is None:
                    return None
                y = max(lo, hi)
            if e < 0 or e != int(e):
                return None
            x *= y ** int(e)
        tot += x
    return tot


def bounds_simple(A):
    return ([C(-32768)], [C(32767)]) if A.kind == "wrap16" else ([C(-128)], [C(127)]) if A.kind == "wrap8" else (None, None)


def one_bound(b, A):
    if isinstance(b, (list, tuple)):
        b = b[0] if b else None
    if callable(b) and not isinstance(b, P):
        b = b(*A.args[1:])
    return None if b is None else C(b)


def wrap16(p):
    if nonneg(p + 32768) and nonneg(C(32767) - p):
        return p
    s = magnitude(p)
    if s is not None and s <= 32767:
        return p
    if p.is_const():
        return C((int(p.const()) + 32768) % 65536 - 32768)
    return atomP(mk_atom("wrap16", (p,)))


def wrapu(p, bits):
    """unsigned storage"""
    if p.is_const():
        return C(int(p.const()) % 2 ** bits)
    if nonneg(p):
        s = magnitude(p)
        if bits >= 32 or s is not None and s < 2 ** bits:
            return p
    return atomP(mk_atom("wrapu", (p, bits)))


def r32(p):
    """value stored in single (or half) precision; exact for 0/1 and small integers"""
    if p.is_const() and p.const().denominator == 1 or nonneg(p) and nonneg(ONE - p) and p.isint():
        return p
    s = single_atom(p)
    if s is not None and s.kind == "r32":
        return p
    return atomP(mk_atom("r32", (p,)))


def uf(name, *args):
    return atomP(mk_atom("uf", (name,) + tuple(C(a) for a in args)))


def opaque(name, *args):
    if ("opq:" + name) not in DECL:
        declare("opq:" + name, opaque=True)
    return leaf("opq:" + name, *args)


# ------------------------------------------------------------------ printing
def show_atom(A, depth=0):
    k = A.kind
    if depth > 6:
        return "…"
    g = [show(a, depth + 1) if isinstance(a, P) else str(a) for a in A.args]
    if k == "leaf":
        return g[0] + (f"({', '.join(g[1:])})" if len(g) > 1 else "")
    if k == "ge":
        return f"[{g[0]}>={g[1]}]"
    if k == "eq":
        return f"[{g[0]}=={g[1]}]"
    if k == "bv":
        return f"b{g[0]}"
    if k == "grp":
        return f"({g[0]})"
    if k == "sum":
        return f"Σ_b{g[2]}<{g[1]}({g[0]})"
    if k in ("any", "count", "sel", "rank", "argmaxd", "maxd"):
        return f"{k}({', '.join(g)})"
    return f"{k}({', '.join(g)})"


def show(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))):
        if i > 30:
            out.append(f" + …({len(p.t) - i} more)")
            break
        f = "*".join(show_atom(ATOMS[a], depth) + (f"^{e}" if e != 1 else "") for a, e in m)
        cs = str(c) if c.denominator < 10 ** 6 else f"{float(c):.6g}"
        if not f:
            s = cs
        elif c == 1:
            s = f
        elif c == -1:
            s = "-" + f
        else:
            s = cs + "*" + f
        out.append(("" if i == 0 or s.startswith("-") else "+") + s)
    r = " ".join(out)
    return r if len(r) < 3000 else r[:3000] + "…"
