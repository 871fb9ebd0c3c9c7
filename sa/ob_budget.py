"""Taxes, net income, benefits, preferences: functions of the budget side."""
from .build import *
from .model import *
from .framework import ob
from . import poly as pl
from . import oracle as O
from .values import AbsRaise

TT = "soepy.pre_processing.tax_and_transfers_params.create_tax_parameters"
NP_TAX = "soepy.shared.tax_and_transfers.calculate_inc_tax"
JX_TAX = "soepy.shared.tax_and_transfers_jax.calculate_inc_tax"
NP_NET = "soepy.shared.tax_and_transfers.calculate_net_income"
JX_NET = "soepy.shared.tax_and_transfers_jax.calculate_net_income"
NP_SSC = "soepy.shared.tax_and_transfers.calculate_ssc_deductions"
JX_SSC = "soepy.shared.tax_and_transfers_jax.calculate_ssc_deductions"
BEN = "soepy.shared.non_employment.calculate_non_employment_benefits"
RES = "soepy.shared.non_employment.calculate_non_employment_consumption_resources"
NCU = "soepy.shared.non_consumption_utility.calculate_non_consumption_utility"

declare("y", lb=F(0))
declare("wf", lb=F(0))
declare("wm", lb=F(0))
declare("ywide")


def num(I, v):
    return L.to_arr(I, v).at()


def tab_of(I, arr):
    a = L.to_arr(I, arr)
    return lambda i, j: a.at(C(i), C(j))


def table(x):
    I = x.B.shared()
    V.set_ctx(I)
    t = x.B.get("tax_table", lambda: tax_table(I))
    return I, t, tab_of(I, t)


def pieces(p, y):
    """exact pieces of a graph of one leaf: [(lo, hi, polynomial coefficients)] between consecutive breakpoints"""
    ya = pl.single_atom(y)
    bps = set()
    for a in pl.p_deep(p):
        A = ATOMS[a]
        if A.kind in ("ge", "eq"):
            d, t = A.args
            c1 = coef(d, ya)
            if c1 is None:
                return None
            bps.add((t - c1[0]) / c1[1])
        elif A.kind == "max":
            fs = [coef(q, ya, True) for q in A.args]
            if any(f is None for f in fs):
                return None
            for i in range(len(fs)):
                for j in range(i):
                    if fs[i][1] != fs[j][1]:
                        bps.add((fs[j][0] - fs[i][0]) / (fs[i][1] - fs[j][1]))
        elif A is not ya:
            return None
    bps = sorted(bps)
    edges = [None] + bps + [None]
    out = []
    for lo, hi in zip(edges, edges[1:]):
        mid = (lo + hi) / 2 if lo is not None and hi is not None else (hi - 1 if lo is None and hi is not None else (lo + 1 if lo is not None else F(0)))

        def fn(A):
            if A.kind in ("ge", "eq"):
                v = ev(A.args[0], ya, mid)
                return C(int(v >= A.args[1] if A.kind == "ge" else v == A.args[1]))
            if A.kind == "max":
                return max(A.args, key=lambda q: ev(q, ya, mid))
            return None
        q = pl.subst_fn(p, fn)
        cs = poly_coefs(q, ya)
        if cs is None:
            return None
        out.append((lo, hi, cs))
    return bps, out


def coef(d, ya, const_ok=False):
    cs = poly_coefs(d, ya)
    if cs is None or len(cs) > 2:
        return None
    c0 = cs[0] if cs else F(0)
    c1 = cs[1] if len(cs) > 1 else F(0)
    if c1 == 0 and not const_ok:
        return None
    return c0, c1


def poly_coefs(q, ya):
    cs = {}
    for m, c in q.t.items():
        if not m:
            cs[0] = c
        elif len(m) == 1 and m[0][0] == ya.id and m[0][1].denominator == 1 and m[0][1] > 0:
            cs[int(m[0][1])] = c
        else:
            return None
    n = max(cs) if cs else 0
    return [cs.get(i, F(0)) for i in range(n + 1)]


def ev(q, ya, v):
    cs = poly_coefs(q, ya)
    return horner(cs, v)


def horner(cs, v):
    r = F(0)
    for c in reversed(cs):
        r = r * v + c
    return r


def deriv(cs):
    return [c * i for i, c in enumerate(cs)][1:] or [F(0)]


@ob("C04", text="tax table: zero up to the allowance, continuous, marginal rate never falls and is continuous between the allowance and the top bracket",
    anchor=[TT, JX_TAX, NP_TAX])
def tax_schedule(x):
    I, t, tab = table(x)
    y = leaf("ywide")
    for nm, f in (("scalar", NP_TAX), ("vectorised", JX_TAX)):
        g = num(I, x.B.call(f, t, scalar(y, "float", "np" if nm == "scalar" else "jax")))
        pc = pieces(g, y)
        if pc is None:
            x.undecided(f"{nm}: pieces", "the tax graph is not piecewise polynomial in income", f)
            continue
        bps, ps = pc
        an = [TT, f]
        thr = [tab(0, j).const() for j in range(4)]
        x.holds(f"{nm}: zero at and below the basic allowance", all(not any(cs) for lo, hi, cs in ps if hi is not None and hi <= thr[0])
                and num(I, x.B.call(f, t, scalar(C(thr[0]), "float"))).const() == 0, an, why="tax is not zero up to the first threshold")
        # merge breakpoints at which nothing changes
        for k, b in enumerate(bps):
            left, right = ps[k][2], ps[k + 1][2]
            at = num(I, x.B.call(f, t, scalar(C(b), "float")))
            ok = horner(left, b) == horner(right, b) == at.const()
            x.holds(f"{nm}: continuous at {float(b):.6g}", ok, an, why=f"left limit {float(horner(left, b)):.12g}, value {float(at.const()):.12g}, right limit {float(horner(right, b)):.12g}")
            dl, dr = horner(deriv(left), b), horner(deriv(right), b)
            x.holds(f"{nm}: marginal rate does not fall at {float(b):.6g}", dr >= dl, an, why=f"marginal rate falls from {float(dl):.6g} to {float(dr):.6g}")
            if thr[0] < b < thr[3]:
                x.holds(f"{nm}: marginal rate continuous at {float(b):.6g}", dr == dl, an, why=f"marginal rate jumps from {float(dl):.6g} to {float(dr):.6g}")
        for lo, hi, cs in ps:
            d2 = deriv(deriv(cs))
            convex = len(cs) <= 3 and d2[0] >= 0
            if len(cs) > 3:
                x.undecided(f"{nm}: convex", "piece of degree above 2")
            else:
                x.holds(f"{nm}: marginal rate never falls on ({lo and float(lo)}, {hi and float(hi)})", convex, an, why=f"quadratic coefficient {float(cs[2]) if len(cs) > 2 else 0}")
        x.holds(f"{nm}: brackets are those of the table", {b for k, b in enumerate(bps) if ps[k][2] != ps[k + 1][2]} == set(thr), an,
                why=f"rate changes at {[float(b) for b in bps]}, thresholds {[float(b) for b in thr]}")
        x.holds(f"{nm}: marginal rate below one", horner(deriv(ps[-1][2]), F(0)) < 1 and len(ps[-1][2]) == 2, an)


@ob("C04", "C05", text="the scalar and the vectorised tax functions are the same function of income and equal the bracket formula", anchor=[NP_TAX, JX_TAX])
def tax_same(x):
    I, t, tab = table(x)
    y = leaf("ywide")
    a = num(I, x.B.call(NP_TAX, t, scalar(y, "float")))
    b = num(I, x.B.call(JX_TAX, t, scalar(y, "float", "jax")))
    x.eq("scalar = vectorised (table of the source)", a, b)
    if "C05" in x.o["props"] or True:
        x.eq("vectorised = bracket formula", b, O.tax(tab, y), [JX_TAX])
        x.eq("scalar = bracket formula", a, O.tax(tab, y), [NP_TAX])


@ob("C05", text="net income = gross - contributions up to the cap - 1.05 tax, with and without splitting, both implementations", anchor=[NP_NET, JX_NET])
def net_income(x):
    I, t, tab = table(x)
    f, m = leaf("wf"), leaf("wm")
    ded = Arr((2,), lambda i: stack_select(i, [lambda: leaf("ssc_rate"), lambda: leaf("ssc_cap")]), "float", "np")
    for spl in (True, False):
        ref = O.net(tab, f, m, spl)
        for nm, fn, lib in (("scalar", NP_NET, "py"), ("vectorised", JX_NET, "jax")):
            g = num(I, x.B.call(fn, t, ded, scalar(f, "float", lib), scalar(m, "float", lib), spl))
            x.eq(f"{nm}, splitting={spl}, couple or single", g, ref, fn)
            g0 = num(I, x.B.call(fn, t, ded, scalar(f, "float", lib), scalar(ZERO, "float", lib), spl))
            x.eq(f"{nm}, splitting={spl}, no partner wage", g0, O.net(tab, f, ZERO, True), fn)
    for nm, fn in (("scalar", NP_SSC), ("vectorised", JX_SSC)):
        x.eq(f"contributions, {nm}", num(I, x.B.call(fn, ded, scalar(f, "float"))), O.ssc(f), fn)


@ob("C05", text="employment resources in the simulation are the net income of the woman's and her partner's wage for each working choice",
    anchor="soepy.simulate.income_sim.calculate_employment_consumption_resources")
def sim_net(x):
    I, t, tab = table(x)
    n = leaf("A")
    for spl in (True, False):
        sp = spec(I, splitting=spl, tax=t)
        inc = Arr((n, 2), lambda i, c: leaf("winc", i, c), "float", "np")
        mw = Arr((n,), lambda i: leaf("wmale", i), "float", "np")
        r = L.to_arr(I, x.B.call("soepy.simulate.income_sim.calculate_employment_consumption_resources", sp, inc, mw, spl))
        i = fresh_index(n, "i")
        for c in (0, 1):
            x.eq(f"splitting={spl}, choice {c + 1}", r.at(i, C(c)), O.net(tab, leaf("winc", i, c), leaf("wmale", i), spl))


declare("winc", lb=F(0))
declare("wmale", lb=F(0))


# ------------------------------------------------------------------ non-employment
def ben_args(I, n, ndim, hours=True):
    lw = Arr((n,) if ndim == 1 else (n, leaf("G")), (lambda i: leaf("lw", i)) if ndim == 1 else (lambda i, g: leaf("lw", i, g)), "float", "jax")
    st = Arr((n, 6), lambda r, c: stack_select(c, [lambda nn=nn: leaf(nn, r) for nn in COLS]), "int", "jax")
    return st, lw


@ob("C20", text="non-employment benefits follow the stated rule in every state, per regime, for one wage per state and for a wage per grid point", anchor=BEN)
def benefits_rule(x):
    I = x.B.shared()
    n = pmul(leaf("T"), leaf("S"))
    for reg in REGIMES:
        for ndim in (1, 2):
            st, lw = ben_args(I, n, ndim)
            s = lambda nm: scalar(leaf(nm), "float")
            mw = Arr((n,), lambda r: pmul(leaf("st_par", r), leaf("mw", r)), "float", "jax")
            cb = Arr((n,), lambda r: pmul(ONE - eq(leaf("st_kid", r) + 1), leaf("cb")), "float", "jax")
            hours = Arr((3,), lambda c: stack_select(c, [lambda: ZERO, lambda: C(18), lambda: C(38)]), "int", "jax")
            r = L.to_arr(I, x.B.call(
                BEN, hours=hours, states=st, log_wage_systematic=lw, child_benefit=cb, male_wage=mw,
                alg1_replacement_no_child=s("alg1_nc"), alg1_replacement_child=s("alg1_c"), regelsatz_single=s("regelsatz_single"),
                housing_single=s("housing_single"), housing_addtion=s("housing_addtion"), regelsatz_child=s("regelsatz_child"),
                addition_child_single=s("addition_child_single"), elterngeld_replacement=s("egr"), elterngeld_min=s("egmin"), elterngeld_max=s("egmax"),
                erziehungsgeld_inc_single=s("erz_inc_s"), erziehungsgeld_inc_married=s("erz_inc_m"), erziehungsgeld=s("erz"),
                elterngeld_regime=reg == "elterngeld"))
            i, g = fresh_index(n, "i"), fresh_index(leaf("G"), "g")
            got = r.at(i) if ndim == 1 else r.at(i, g)
            w = leaf("lw", i) if ndim == 1 else leaf("lw", i, g)
            a, pa, l = leaf("st_kid", i), leaf("st_par", i), leaf("st_lag", i)
            cbv = pmul(ONE - eq(a + 1), leaf("cb"))
            mv = pmul(pa, leaf("mw", i))
            by_state(x, f"{reg}, {ndim}-d wages", got, O.benefits(reg, l, a, pa, w, mv, cbv), i)
            x.ge(f"{reg}, {ndim}-d: single women are at or above social assistance", got, O.alg2(a, ZERO), need=(ONE - pa,))
            x.ge(f"{reg}, {ndim}-d: benefits are not negative", got, ZERO)


declare("lw", sample=(F(1), F(2), F(3), F(1, 2), F(0), F(4)))


def by_state(x, label, got, ref, i, anchor=None, need=()):
    """compare per cell of (lagged choice, child age group, partner): finitely many, exhaustive; child ages 0, 1, 2 and -1 singly"""
    bad = []
    status = "proved"
    info = {}
    for l in range(3):
        for pa in range(2):
            for a in (-1, 0, 1, 2, "old"):
                mp = {pl.single_atom(leaf("st_lag", i)).id: C(l), pl.single_atom(leaf("st_par", i)).id: C(pa),
                      pl.single_atom(leaf("st_kid", i)).id: C(a) if a != "old" else leaf("kidx") + 3}
                r = x.A.equal(pl.subst(got, mp), pl.subst(ref, mp), need=need)
                if r.status != "proved":
                    status = r.status if status != "refuted" else status
                    info = dict(r.info, cell=dict(lagged=l, partner=pa, child=a))
                    if r.status == "refuted":
                        return x.add(label, "refuted", anchor, **info)
    x.add(label, status, anchor, cells=30, **info)




@ob("C20", text="resources without employment are the couple's net income at zero own wage plus the benefits", anchor=RES)
def nonemp_resources(x):
    I, t, tab = table(x)
    n = pmul(leaf("T"), leaf("S"))
    for reg in REGIMES:
        for spl in (True, False):
            sp = spec(I, reg, spl, tax=t)
            st, lw = ben_args(I, n, 2)
            mw = Arr((n,), lambda r: pmul(leaf("st_par", r), leaf("mw", r)), "float", "jax")
            cb = Arr((n,), lambda r: pmul(ONE - eq(leaf("st_kid", r) + 1), leaf("cb")), "float", "jax")
            hours = Arr((3,), lambda c: stack_select(c, [lambda: ZERO, lambda: C(18), lambda: C(38)]), "int", "jax")
            r = L.to_arr(I, x.B.call(RES, deductions_spec=sp.fields["ssc_deductions"], income_tax_spec=t, model_spec=sp, states=st, log_wage_systematic=lw,
                                     male_wage=mw, child_benefits=cb, tax_splitting=spl, hours=hours))
            i, g = fresh_index(n, "i"), fresh_index(leaf("G"), "g")
            a, pa, l = leaf("st_kid", i), leaf("st_par", i), leaf("st_lag", i)
            cbv = pmul(ONE - eq(a + 1), leaf("cb"))
            mv = pmul(pa, leaf("mw", i))
            net0 = num(I, x.B.call(JX_NET, t, sp.fields["ssc_deductions"], scalar(ZERO, "float"), scalar(mv, "float", "jax"), spl))
            by_state(x, f"{reg}, splitting={spl}", r.at(i, g), net0 + O.benefits(reg, l, a, pa, leaf("lw", i, g), mv, cbv), i)


# ------------------------------------------------------------------ preferences
@ob("C25", text="non-pecuniary factors are the stated table for every child group, education level and type", anchor=NCU)
def nonpec_rule(x):
    I = x.B.shared()
    n = pmul(leaf("T"), leaf("S"))
    arr = lambda f, dt="int": Arr((n,), f, dt, "jax")
    r = L.to_arr(I, x.B.call(NCU, model_params=params(), educ=arr(lambda i: leaf("st_educ", i)), unobs_type=arr(lambda i: leaf("st_type", i)),
                             child_bin=arr(lambda i: leaf("bin", i), "float")))
    i = fresh_index(n, "i")
    for c, nm in enumerate("NPF"):
        for b in range(5):
            mp = {pl.single_atom(leaf("bin", i)).id: C(b)}
            x.eq(f"choice {nm}, child group {b}", pl.subst(r.at(i, C(c)), mp), O.nonpec(c, C(b), leaf("st_educ", i), leaf("st_type", i)))


declare("bin", isint=True, lb=F(0), ub=F(4))
