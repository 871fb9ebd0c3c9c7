"""Pieces of the solved / simulated value graphs used by several obligations."""
import itertools

from .build import *
from . import poly as pl
from . import oracle as O

NPF = "NPF"
EPS_P = C(O.EPS)


def tab_in(so):
    tt = L.to_arr(so.I, so.spec.fields["tax_params"])
    return lambda i, j: tt.at(C(i) if isinstance(i, int) else i, C(j) if isinstance(j, int) else j)


def belief(e, a, biased):
    return ONE if biased else O.pt_inc(e, a)


def budget(so, reg, sl, biased=False):
    """reference budget at the state (t, s), grid point g of a solution"""
    r = so.r
    e, l, ty, a, pa = [leaf(n, r) for n in COLS[1:]]
    return O.Budget(tab_in(so), reg, sl, so.t, e, l, ty, a, pa, pmul(pa, leaf("mw", r)), leaf("eqv", r), pmul(ONE - eq(a + 1), leaf("cb")),
                    leaf("grid", so.g), belief(e, a, biased))


def state_cells(r, lags=(0, 1, 2), par=(0, 1), kids=(-1, 0, 1, 2, "old")):
    """all values of lagged choice and partner status; child ages none, 0, 1, 2 and 3 or more"""
    return cells_of(leaf("st_lag", r), leaf("st_par", r), leaf("st_kid", r), lags, par, kids)


GROUPS = (-1, 0, 1, 2, "3-5", "6-10", "11+")


def kid_value(av):
    return {"old": leaf("kidx") + 3, "3-5": leaf("kid35"), "6-10": leaf("kid610"), "11+": leaf("kid11")}.get(av, C(av) if isinstance(av, int) else None)


def cells_of(l, pa, a, lags=(0, 1, 2), par=(0, 1), kids=(-1, 0, 1, 2, "old")):
    out = []
    for lv in (lags or (None,)):
        for pv in (par or (None,)):
            for av in kids:
                mp = {}
                if lv is not None:
                    mp[pl.single_atom(l).id] = C(lv)
                if pv is not None:
                    mp[pl.single_atom(pa).id] = C(pv)
                mp[pl.single_atom(a).id] = kid_value(av)
                out.append(mp)
    return out


declare("kidx", isint=True, lb=F(0), ub=lambda *a: leaf("CAM") - 3, sample=(0, 1, 3, 6, 8))
declare("kid35", isint=True, lb=F(3), ub=F(5))
declare("kid610", isint=True, lb=F(6), ub=F(10))
declare("kid11", isint=True, lb=F(11), sample=(11, 12, 15))
declare("zs", sample=(F(0), F(1), F(-1), F(1, 2), F(-2)))


def sum_body(so):
    """(body, bound atom) of the integration sum of the solved value"""
    e = so.em(3)
    sums = [a for m in e.t for a, _ in m if ATOMS[a].kind == "sum"]
    if len(e.t) != 1 or len(sums) != 1:
        raise Unsupported("the solved value is not one sum over nodes")
    (m, c), = e.t.items()
    A = ATOMS[sums[0]]
    rest = mkP_of({tuple((a, x) for a, x in m if a != A.id): c})
    return A.args[0], pl.mk_atom("bv", (A.args[2], A.args[1])), A.args[1], rest


def mkP_of(d):
    return pl.mkP(d)


def solve_flows(so, method="quadrature"):
    """flow utility of the three choices in the solution at (t, s, g) as a function of the standard normal shock zs:
    the operands of the maximum inside the integration sum minus discounted continuation"""
    def f():
        body, bv, n, rest = sum_body(so)
        mx = {a for m in body.t for a, _ in m if ATOMS[a].kind == "max" and len(ATOMS[a].args) == 3}
        if len(mx) != 1:
            raise Unsupported("no single maximum over three choices inside the integration sum")
        A = ATOMS[mx.pop()]
        carry = {nm for nm, _, _ in so.carry()}
        out = {}
        for op in A.args:
            for c in range(3):
                if c in out:
                    continue
                d = op - pmul(leaf("delta"), so.em(c))
                if not (carry & pl.leaf_names(d)):
                    out[c] = d
                    break
        if len(out) != 3:
            raise Unsupported("operands of the maximum are not flow plus discounted continuation")

        def z(B):
            if B.kind == "leaf" and B.args[0] == "gh_x":
                return leaf("zs") / ppow(C(2), F(1, 2))
            if B.kind == "leaf" and B.args[0] in so.I.draws:
                return leaf("zs")
            return None
        return [pl.subst_fn(out[c], z) for c in range(3)]
    return so_cache(so, "flows", f)


def so_cache(so, key, fn):
    d = so.__dict__.setdefault("_cache", {})
    if key not in d:
        d[key] = fn()
    return d[key]


class SimState:
    """state leaves of a simulated row"""

    def __init__(self, so):
        s = so.s
        self.e, self.l, self.ty, self.a, self.pa = s("Education_Level"), s("Lagged_Choice"), s("Type"), s("Age_Youngest_Child"), s("Partner_Indicator")
        self.x = s("Experience_Stock")
        self.k = so.k
        ki = select(eq(self.a + 1), leaf("CAM") + 1, self.a)
        self.ixf = lambda name, *more: leaf(name, leaf("ix", self.k, self.e, self.l, self.ty, ki, self.pa), *more)
        self.ki = ki

    def cells(self, **kw):
        return cells_of(self.l, self.pa, self.a, **kw)


def normal_leaf(so, p):
    """the one standard-normal draw in a graph"""
    zs = [A for A in pl.leaf_atoms(p) if A.args[0] in so.I.draws and so.I.draws[A.args[0]]["dist"] == "normal"]
    if len(zs) != 1:
        raise Unsupported(f"{len(zs)} normal draws behind one value")
    return zs[0]


def at_choice(so, p, c):
    """graph given that the row's choice is c"""
    ch = so.rec("Choice")
    s = pl.single_atom(ch)
    if s is None or s.kind not in ("argmax", "argmaxd"):
        raise Unsupported("the recorded choice is not one maximiser")
    q = pl.subst_fn(p, lambda A: C(c) if A is s else None)
    if any(ATOMS[a].kind == s.kind for a in pl.p_deep(q)):
        # the choice within one cell of the state space (factors next to an indicator are specialised to its cell)
        def f():
            st = SimState(so)
            opts = [[None, *vals] for vals in ((-1, 0, 1, 2), (0, 1, 2), (0, 1))]
            ids = [pl.single_atom(v).id for v in (st.a, st.l, st.pa)]
            out = set()
            for vals in itertools.product(*opts):
                mp = {i: C(v) for i, v in zip(ids, vals) if v is not None}
                b = pl.single_atom(pl.subst(ch, mp))
                if b is not None:
                    out.add(b.id)
            return out
        special = so_cache(so, "special_choice", f)
        q = pl.subst_fn(q, lambda A: C(c) if A.id in special else None)
    return q


def sim_wage(so):
    """hourly wage behind the recorded wage (its value for a worker) and its normal draw"""
    def f():
        w = at_choice(so, so.rec("Wage_Observed"), 2)
        return w, normal_leaf(so, w)
    return so_cache(so, "wage", f)


def sim_budget(so, reg, sl, biased=False):
    st = SimState(so)
    return O.Budget(tab_in(so), reg, sl, st.k, st.e, st.l, st.ty, st.a, st.pa, pmul(st.pa, st.ixf("mw")), st.ixf("eqv"), pmul(ONE - eq(st.a + 1), leaf("cb")),
                    st.x, belief(st.e, st.a, biased)), st


def to_sim(so, sim, st):
    """map a solution graph at (t, s, g) to the coordinates of a simulated row"""
    names = {"st_educ": st.e, "st_lag": st.l, "st_type": st.ty, "st_kid": st.a, "st_par": st.pa}
    ta, sa, ga = [pl.single_atom(q) for q in (so.t, so.s, so.g)]

    def fn(A):
        if A.kind == "leaf":
            nm = A.args[0]
            if nm in names and A.args[1] is so.r:
                return names[nm]
            if nm in ("mw", "eqv") and A.args[1] is so.r:
                return st.ixf(nm)
            if nm == "grid" and A.args[1] is so.g:
                return st.x
            if A is ta:
                return C(st.k)
            if A is sa or A is ga:
                raise Unsupported("flow depends on the position in the state space")
        return None
    return lambda p: pl.subst_fn(p, fn)


def resources_of(flow):
    """resources before floor and equivalence scale: the bases of the power with the risk parameter"""
    out = []
    for a in pl.p_deep(flow):
        A = ATOMS[a]
        if A.kind == "log" and A.args[0] not in out and "eqv" not in pl.leaf_names(A.args[0]):
            out.append(A.args[0])
    return out


def base_in(flow):
    """resources before the floor in a flow utility within one cell: the argument next to the floor in the one base of the risk power"""
    cand = set()
    for a in pl.p_deep(flow):
        A = ATOMS[a]
        if A.kind != "log":
            continue
        s = pl.single_atom(A.args[0])
        if s is not None and s.kind == "max" and len(s.args) == 2 and any(q.is_const() for q in s.args):
            cand.add(next(q for q in s.args if not q.is_const()))
    if len(cand) != 1:
        raise Unsupported(f"{len(cand)} floored bases in one flow utility")
    return cand.pop()


def floored_base(flow):
    """what is raised to the risk parameter besides the equivalence scale, within one cell"""
    mu, out = leaf("mu"), set()
    for a in pl.p_deep(flow):
        A = ATOMS[a]
        if A.kind == "exp" and "mu" in pl.leaf_names(A.args[0]):
            q = A.args[0] / mu
            s = pl.single_atom(q)
            if s is None or s.kind != "log":
                raise Unsupported("power with the risk parameter of an unexpected form")
            if "eqv" not in pl.leaf_names(s.args[0]):
                out.add(s.args[0])
    if len(out) != 1:
        raise Unsupported(f"{len(out)} bases of the risk power in one flow utility")
    return out.pop()


def zero(p, *names):
    """set leaves to zero by name"""
    return pl.subst_fn(p, lambda A: ZERO if A.kind == "leaf" and A.args[0] in names else None)
