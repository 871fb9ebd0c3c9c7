"""The simulation: flows, continuation, choices, transitions, panel."""
from .build import *
from .model import *
from .framework import ob
from . import poly as pl
from . import oracle as O
from .values import AbsRaise
from .valuation import Infeasible

PSIM = "soepy.simulate.simulate_auxiliary.pyth_simulate"
LOOP = "soepy.simulate.simulate_auxiliary.simulate_agents_over_periods"
INIT = "soepy.simulate.initial_states.prepare_simulation_data"
BI = "soepy.solve.solve_python.pyth_backward_induction"
CTX = [(reg, sl) for reg in REGIMES for sl in (True, False)]
N, T, CAM = "NPF", leaf("T"), leaf("CAM")


def parts(x, what, flow, bud, cells, wage_z, label):
    """parts of the budget in one flow utility, cell by cell; what: set of parts to check"""
    anchor = x.o["anchor"]
    res = {k: [] for k in what}
    c = label[1]
    for mp in cells:
        f = pl.subst(flow, mp)
        R = base_in(f) if what != {"benefits"} else None
        sub = lambda p: pl.subst(C(p), mp)
        W = sub(bud.wage(wage_z))
        fw = pmul(C(O.H[c]), W)
        m, q, cb = sub(bud.m), sub(bud.q), sub(bud.cb)
        a, pa, l = sub(bud.a), sub(bud.pa), sub(bud.l)
        if "net" in what and c:
            res["net"].append((zero(R, "cb", "ccc", "erz"), O.net(bud.tab, fw, m, bud.splitting), mp))
        if "cost" in what and c:
            b = child_bin(a)
            res["cost"].append((R - zero(R, "ccc"), ZERO - pmul(eq(b - 1), leaf("ccc", 1, c - 1)) - pmul(eq(b - 2), leaf("ccc", 2, c - 1)), mp))
        if "cb" in what and c:
            res["cb"].append((R - zero(R, "cb"), cb, mp))
        if "scale" in what:
            ncu = f / (ppow(pmax(R, EPS_P) / q, leaf("mu")) / leaf("mu"))
            other = pl.subst_fn(ncu, lambda A: pmul(atomP(A), C(2)) if A.kind == "leaf" and A.args[0] in ("eqv", "ccc", "cb", "mw") else None)
            res["scale"].append((ncu, other, mp))
        if "benefits" in what and c == 0:
            res["benefits"].append((floored_base(f), pmax(EPS_P, O.net(bud.tab, ZERO, m, bud.splitting) + O.benefits(bud.regime, l, a, pa, sub(bud.logw()), m, cb)), mp))
        if "erz" in what and c == 1 and bud.regime == "erziehungsgeld":
            res["erz"].append((R - zero(R, "erz"), O.erz(pa, a, m + fw), mp))
    for k, rows in res.items():
        if rows:
            x.cells(f"{label[0]}, choice {N[c]}, {k}", rows, anchor)


def sites(x, runs):
    """(label, flows by choice, reference budget, cells, shock) for solution and simulation"""
    for reg, sl in x.share(runs):
        so = x.B.solve(reg, sl)
        yield f"solution, {reg}, splitting={sl}", solve_flows(so), budget(so, reg, sl), lambda **k: state_cells(so.r, **k), pmul(leaf("shock_sd"), leaf("zs"))
        si = x.B.sim(reg, sl)
        bud, st = sim_budget(si, reg, sl)
        w, z = sim_wage(si)
        yield f"simulation, {reg}, splitting={sl}", [si.rec(f"Flow_Utility_{n}") for n in N], bud, st.cells, pmul(leaf("shock_sd"), atomP(z))


@ob("C05", shards=4, text="the net-income part of resources in every working flow, in the solution and the simulation, is net income of the woman's wage and her partner's",
    anchor=[LOOP, BI])
def net_in_flows(x):
    for lab, fl, bud, cells, z in sites(x, CTX):
        for c in (1, 2):
            parts(x, {"net"}, fl[c], bud, cells(lags=(0,), kids=(-1, 0, 4)), z, (lab, c))


@ob("C19", shards=4, text="child care costs by group and hours, child benefit to mothers and the equivalence scale enter every working flow, in the solution and the simulation",
    anchor=[LOOP, BI])
def covariates_in_flows(x):
    for lab, fl, bud, cells, z in sites(x, CTX):
        for c in (1, 2):
            parts(x, {"cost", "cb", "scale"}, fl[c], bud, cells(lags=(0,), kids=GROUPS), z, (lab, c))


@ob("C20", shards=4, text="resources without employment and the child-raising benefit of part-time workers, in the solution and the simulation, follow the benefit rules", anchor=[LOOP, BI])
def benefits_in_flows(x):
    for lab, fl, bud, cells, z in sites(x, CTX):
        parts(x, {"benefits"}, fl[0], bud, cells(), z, (lab, 0))
        parts(x, {"erz"}, fl[1], bud, cells(lags=(0,)), z, (lab, 1))


# ------------------------------------------------------------------ C06
@ob("C06", shards=8, text="recorded flow utilities equal the solution's flow utility at the same state, experience and standard-normal shock", anchor=[LOOP, BI])
def flows_agree(x):
    for reg, sl, biased in x.share([(reg, sl, b) for reg, sl in CTX for b in (False, True)]):
        if True:
            so, si = x.B.solve(reg, sl, biased), x.B.sim(reg, sl, biased)
            st = SimState(si)
            mp = to_sim(so, si, st)
            w, z = sim_wage(si)
            fl = solve_flows(so)
            ncu = [mp(so.ncu(c)) for c in range(3)]
            for c in range(3):
                ref = subst(mp(fl[c]), {pl.single_atom(leaf("zs")).id: atomP(z)})
                got = pl.subst_fn(si.rec(f"Flow_Utility_{N[c]}"),
                                  lambda A: ncu[int(A.args[2].const())] if A.kind == "leaf" and A.args[0] == "ncu" and A.args[2].is_const() else None)
                x.split(f"{reg}, splitting={sl}, biased={biased}, choice {N[c]}", got, ref, st.cells())


@ob("C13", "C24", shards=4, text="recorded flow utilities are the model's flow utility of the recorded wage, partner income, state and non-pecuniary factor", anchor=[LOOP])
def flows_of_row(x):
    for reg, sl in x.share(CTX):
        si = x.B.sim(reg, sl)
        bud, st = sim_budget(si, reg, sl)
        w, z = sim_wage(si)
        for c in range(3):
            ncu = si.rec(f"Non_Consumption_Utility_{N[c]}")
            x.split(f"{reg}, splitting={sl}, flow utility {N[c]}", si.rec(f"Flow_Utility_{N[c]}"), bud.flow(c, pmul(leaf("shock_sd"), atomP(z)), ncu), st.cells())
            x.split(f"{reg}, splitting={sl}, factor {N[c]}", ncu, st.ixf("ncu", C(c)), st.cells())
        x.split(f"{reg}, splitting={sl}, partner wage", si.rec("Male_Wages"), bud.m, st.cells())


@ob("C22", "C13", "C09", "C10", shards=3, text="recorded wages are exp(systematic log wage of the state's experience + shock) with a normal shock of the model's spread", anchor=[LOOP, INIT])
def wages(x):
    for reg, biased in x.share((("elterngeld", False), ("erziehungsgeld", False), ("elterngeld", True))):
        si = x.B.sim(reg, True, biased)
        bud, st = sim_budget(si, reg, True, biased)
        w, z = sim_wage(si)
        x.split(f"{reg}, biased={biased}: hourly wage", w, bud.wage(pmul(leaf("shock_sd"), atomP(z))), st.cells(lags=(), par=()))
        d = si.I.draws[z.args[0]]
        x.holds(f"{reg}, biased={biased}: shocks are independent over rows", len(z.args) >= 3 and {pl.single_atom(C(q)) for q in z.args[1:]} >= {pl.single_atom(C(si.k)), pl.single_atom(si.j)},
                why=f"the shock is indexed by {[pl.show(C(q)) for q in z.args[1:]]}, not by period and row")


@ob("C07", "C13", text="the recorded continuation value is the interpolation of the solved value of that choice in the row's state at the row's stock, on the given grid",
    anchor=["soepy.simulate.simulate_auxiliary._interp_exp_grid", LOOP])
def continuation_row(x):
    si = x.B.sim()
    st = SimState(si)
    for c in range(3):
        for nm, f in (("count", O.interp_count),) + ((("segments", O.interp),) if c == 0 else ()):
            ref = f(lambda i: leaf("grid", i), lambda i: st.ixf("em", i, C(c)), st.x, leaf("G"))
            x.split(f"choice {N[c]} ({nm})", si.rec(f"Continuation_Value_{N[c]}"), ref, st.cells(lags=(), par=()))


@ob("C13", text="values are flow plus discounted continuation; the choice has the highest value; wages are missing exactly without work", anchor=LOOP)
def choice(x):
    for reg, sl in CTX:
        si = x.B.sim(reg, sl)
        V = [si.rec(f"Value_Function_{n}") for n in N]
        for c in range(3):
            x.eq(f"{reg}, splitting={sl}, value {N[c]}", V[c], si.rec(f"Flow_Utility_{N[c]}") + pmul(leaf("delta"), si.rec(f"Continuation_Value_{N[c]}")))
        ch = si.rec("Choice")
        s = pl.single_atom(ch)
        if s is not None and s.kind == "argmax" and len(s.args) == 3:
            ok = all(not (s.args[c] - V[c]).t for c in range(3))
            if ok:
                x.holds(f"{reg}, splitting={sl}, choice maximises the recorded values", True)
                continue
        got = sum((pmul(eq(ch - c), V[c]) for c in range(3)), ZERO)
        lab = f"{reg}, splitting={sl}, choice maximises the recorded values"
        for i in range(32):
            # rows in which the three values nearly tie
            r = x.A.equal(got, pmax(*V), samplers=dict(em=tied([si.rec(f"Flow_Utility_{n}") for n in N], i)), n=1, effort=0, seed=x.A.seed + i)
            if r.status == "refuted":
                break
        if r.status == "refuted":
            x.add(lab, "refuted", **r.info)
        else:
            x.eq(lab, got, pmax(*V))


def tied(flows, i):
    """solved values that are constant over the grid and make flow + discounted continuation almost equal over choices"""
    eps = (F(1, 1000), F(1, 10 ** 4), F(1, 10 ** 5), F(24, 10 ** 8))[i % 4]
    top = (F(1), F(-3), F(100), F(5000))[i // 4 % 4]
    order = ((0, 1, 2), (0, 2, 1), (1, 2, 0), (2, 1, 0))[i // 8 % 4]

    def f(v, args):
        c = int(args[2])
        if c > 2:
            return top
        d = v.ev(leaf("delta"))
        if not d:
            raise Infeasible("no discounting")
        return F(float(top * (1 + eps * order[c]) - F(float(v.ev(flows[c])))) / float(d))
    return f


@ob("C13", shards=2, text="wages are reported exactly for workers; next period's lagged choice is the choice; year counters follow the choice", anchor=[LOOP, PSIM])
def consistency(x):
    for sparse in x.share((False, True)):
        si = x.B.sim(sparse=sparse)
        lab = "reduced output" if sparse else "full output"
        wages = [at_choice(si, si.rec("Wage_Observed"), c) for c in range(3)]
        x.eq(f"{lab}: wage missing without work", wages[0], leaf("nan"))
        for c in (1, 2):
            lb = f"{lab}: wage reported when working ({N[c]})"
            if "nan" not in pl.leaf_names(wages[c]):
                x.holds(lb, True)
            else:
                r = x.A.finite(wages[c])
                x.add(lb, r.status, **r.info)
        if not sparse:
            x.eq("the wage of part-time and full-time workers is the same hourly wage", at_choice(si, si.rec("Wage_Observed"), 1), at_choice(si, si.rec("Wage_Observed"), 2))
        ch = si.rec("Choice")
        raw = ch
        x.eq(f"{lab}: lagged choice", wrapless(si.nxt("Lagged_Choice")), wrapless(raw))
        for c, col in ((1, "Experience_Part_Time"), (2, "Experience_Full_Time")):
            for v in range(3):
                x.eq(f"{lab}: {col} after choice {N[v]}", at_raw(si, si.nxt(col), v), si.s(col) + (1 if v == c else 0))


def wrapless(p):
    """drop int8 casts (values in range by the bounds of the state variables)"""
    return pl.subst_fn(p, lambda A: wrapless(A.args[0]) if A.kind in ("wrap8", "wrap16", "wrapu") else None)


def at_raw(si, p, v):
    ch = pl.single_atom(wrapless(si.rec("Choice")))
    return pl.subst_fn(p, lambda A: C(v) if A is ch else None)


# ------------------------------------------------------------------ transitions
def expectation(si, p, names, test):
    """expected value of test(p) over independent Bernoulli draws in p (names), as a term; None if not enumerable"""
    atoms = []
    for A in pl.leaf_atoms(p):
        if A.args[0] in names and A not in atoms:
            atoms.append(A)
    if len(atoms) > 4:
        return None
    tot = ZERO

    def rec(i, q, w):
        nonlocal tot
        if i == len(atoms):
            tot = tot + pmul(w, test(q))
            return
        A = atoms[i]
        if si.I.draws[A.args[0]]["dist"] == "uniform":
            for ww, qq in below(A, q):
                rec(i + 1, qq, pmul(w, ww))
            return
        pr = prob_of(si, A)
        for v in (0, 1):
            rec(i + 1, subst(q, {A.id: C(v)}), pmul(w, pr if v else ONE - pr))
    rec(0, p, ONE)
    return tot


def below(A, q):
    """weights and values replacing a uniform draw that q only compares with thresholds:
    the product of [u < t] over a set of thresholds has the mean min(t)"""
    u = pl.atomP(A)
    inds = []

    def note(B):
        if B.kind in ("ge", "eq") and A.id in pl.p_deep(B.args[0]) and B not in inds:
            inds.append(B)
        return None
    pl.subst_fn(q, note)
    found = []
    for B in inds:
        if B.kind == "eq":
            found.append((B, None, False))
            continue
        d, t = B.args
        zero, one = subst(d, {A.id: ZERO}), subst(d, {A.id: ONE})
        slope = one - zero
        if not slope.is_const() or not slope.const() or (d - zero - pscale(u, slope.const())).t:
            raise Unsupported("uniform draw not compared with a threshold")
        found.append((B, pscale(C(t) - zero, 1 / slope.const()), slope.const() > 0))
    th = []
    for B, t, _ in found:
        if t is not None and not any(not (t - s).t for s in th):
            th.append(t)
    if len(th) > 3:
        raise Unsupported("uniform draw compared with many thresholds")
    vals = {}
    for bits in range(1 << len(th)):
        def fn(B):
            for C_, t, up in found:
                if C_ is B:
                    if t is None:
                        return ZERO
                    low = next(bits >> i & 1 for i, s in enumerate(th) if not (t - s).t)
                    return C(int(bool(low) != up))
            return None
        vals[bits] = pl.subst_fn(q, fn)
        if A.id in pl.p_deep(vals[bits]):
            raise Unsupported("uniform draw used otherwise")
    out = []
    for bits, v in vals.items():
        w = ZERO
        # coefficient of v in the mean: sum over the sets containing bits with sign
        for s in range(1 << len(th)):
            if s & bits == bits:
                ts = [th[i] for i in range(len(th)) if s >> i & 1]
                m = pl.pmax(ZERO, pl.pmin(ONE, *ts)) if ts else ONE
                w = w + pscale(m, F((-1) ** bin(s & ~bits).count("1")))
        out.append((w, v))
    return out


def prob_of(si, A):
    """success probability of a Bernoulli draw leaf"""
    d = si.I.draws[A.args[0]]
    if d["dist"] != "binomial" or d["params"]["n"].shape or d["params"]["n"].p() is not ONE:
        raise Unsupported(f"transition drawn from {d['dist']}")
    pa = d["params"]["p"]
    idx = [C(q) for q in A.args[1 + len(d["loops"]):]]
    nd = len(pa.shape)
    mp = {}
    for k0, k1 in zip(d["loops"], A.args[1:]):
        s = pl.single_atom(C(k0))
        if s is not None and C(k0) is not C(k1):
            mp[s.id] = C(k1)
    if nd > len(idx):
        raise Unsupported("probabilities of more dimensions than draws")
    idx = idx[len(idx) - nd:] if nd else []
    idx = [ZERO if pa.shape[i] is ONE else q for i, q in enumerate(idx)]
    p = pa.at(*idx)
    return subst(p, mp) if mp else p


def bern(si, p):
    return [n for n in pl.leaf_names(p) if n in si.I.draws and si.I.draws[n]["loops"]]


@ob("C11", text="the youngest child of the next period is a newborn with the solution's probability for the period and education and otherwise ages by the rule; "
    "no birth after the last child-bearing period", anchor=LOOP)
def births(x):
    si = x.B.sim()
    st = SimState(si)
    p = si.nxt("Age_Youngest_Child")
    q, mp = si.at_transition()
    v = leaf("agev")
    aged = select(eq(st.a + 1), C(-1), select(ge(CAM - 1 - st.a), st.a + 1, C(-1)))
    names = bern(si, p)
    e = expectation(si, p, names, lambda r: eq(r - v))
    if e is None:
        return x.undecided("law of births", "too many draws")
    law = lambda pr: pmul(pr, eq(v)) + pmul(ONE - pr, eq(aged - v))
    gate = ge(leaf("lcb") - st.k)
    right = law(pmul(gate, leaf("pc", st.k, st.e)))
    defect = law(pmul(gate, leaf("pc", st.k + 1, st.e)))
    got = subst(e, mp)
    r = x.A.equal(got, subst(right, mp))
    alt = law(leaf("pc", st.k, st.e))
    r2 = x.A.equal(got, subst(alt, mp)) if r.status == "refuted" else r
    if r.status != "refuted" or r2.status != "refuted":
        ok = r if r.status != "refuted" else r2
        x.add("law of births", ok.status, **ok.info)
    else:
        d = x.A.equal(got, subst(defect, mp))
        if d.status in ("proved", "agree"):
            x.known("law of births", "birth-next-period-probability", "simulated births use the next period's birth probability")
        else:
            x.add("law of births", "refuted", **r.info)
    late = subst(e, {**mp, pl.single_atom(leaf("lcb")).id: q - 1 - leaf("later")})
    ref = subst(law(ZERO), mp)
    x.eq("no birth after the last child-bearing period", late, ref)


declare("agev", isint=True, lb=F(-1), ub=lambda *a: leaf("CAM"))
declare("later", isint=True, lb=F(0))


@ob("C11", text="partners arrive and separate with the solution's probabilities for the period, education and partner status, independently of births", anchor=LOOP)
def partners(x):
    si = x.B.sim()
    st = SimState(si)
    p = si.nxt("Partner_Indicator")
    names = bern(si, p)
    for pa in (0, 1):
        mp = {pl.single_atom(st.pa).id: C(pa)}
        q, mp2 = si.at_transition()
        e1 = expectation(si, p, names, lambda r: eq(r - 1))
        e0 = expectation(si, p, names, lambda r: eq(r))
        if e1 is None:
            return x.undecided("partner law", "too many draws")
        ref = leaf("parr", st.k, st.e) if pa == 0 else ONE - leaf("psep", st.k, st.e)
        need = (eq(st.pa - pa),)
        x.eq(f"probability of a partner, from status {pa}", subst(e1, mp2), subst(ref, mp2), need=[subst(n, mp2) for n in need])
        x.eq(f"probability of no partner, from status {pa}", subst(e0, mp2), subst(ONE - ref, mp2), need=[subst(n, mp2) for n in need])
    kids = set(bern(si, si.nxt("Age_Youngest_Child")))
    x.holds("births and partner changes come from different draws", not (kids & set(names)), why=f"shared draws {kids & set(names)}")
    dep = set()
    for n in list(kids) + names:
        A = pl.single_atom(leaf(n, *si.I.draws[n]["loops"], *[ZERO] * len(si.I.draws[n]["shape"])))
        if "p" not in si.I.draws[n]["params"]:
            continue
        pr = si.I.draws[n]["params"]["p"]
        dep |= set(bern(si, pr.at(*[fresh_index(s, "z") for s in pr.shape])))
    x.holds("probabilities of one draw do not depend on the outcome of another", not dep, why=f"probabilities depend on draws {dep}")


@ob("C11", text="the draws behind births and partner changes are not restarted: no two of them, nor those of two periods, read the same stretch of one random stream", anchor=LOOP)
def streams(x):
    si = x.B.sim()
    names = set(bern(si, si.nxt("Age_Youngest_Child"))) | set(bern(si, si.nxt("Partner_Indicator")))
    last, pos, key, bad = {}, {}, {}, []
    for e in si.I.rng_events:
        g = e.get("gen")
        if e["kind"] == "seed":
            last[g], pos[g] = e, 0
        elif e["kind"] == "draw":
            s = last.get(g)
            if e["name"] in names and s is not None and s["seed"] is not None and e["seed"] is s["seed"]:
                varies = {n for l in e["loops"] for n in pl.leaf_names(C(l))} & pl.leaf_names(s["seed"])
                if e["loops"] and set(e["loops"]) <= set(s["loops"]) and not varies and is_certain(s):
                    bad.append(f"the stream of the draw at {where(e)} starts again with the same seed in every period ({where(s)})")
                k = (g.rstrip("0123456789"), s["seed"], pos.get(g, 0), e["loops"])
                if k in key and is_certain(s):
                    bad.append(f"the draws at {where(e)} and {where(key[k])} read the same stretch of one stream")
                key.setdefault(k, e)
            pos[g] = pos.get(g, 0) + 1
    x.holds("streams of births and partner changes do not restart", not bad, why="; ".join(bad[:3]))


def is_certain(e):
    return C(e["guard"]) is not ZERO


def where(e):
    w = e["where"]
    return f"{w[0]}:{w[1]} {w[2]}" if w else "?"


# ------------------------------------------------------------------ experience
@ob("C09", "C10", shards=3, text="the simulated stock moves by the stated law with the true increment of the state and stays in [0, 1]", anchor=LOOP)
def stock_law(x):
    for reg, biased in x.share((("elterngeld", False), ("erziehungsgeld", False), ("elterngeld", True))):
        si = x.B.sim(reg, True, biased)
        st = SimState(si)
        p = si.nxt("Experience_Stock")
        inc = belief(st.e, st.a, biased)
        for c in range(3):
            got = at_choice(si, p, c)
            x.split(f"{reg}, biased={biased}, after choice {N[c]}", got, O.next_stock(st.x, st.k, inc, c), st.cells(lags=(), par=()))
            x.ge(f"{reg}, biased={biased}, at least 0, choice {N[c]}", got, ZERO)
            x.ge(f"{reg}, biased={biased}, at most 1, choice {N[c]}", ONE, got)


def entry(si):
    """terms of one entrant at position j of the entrants of period k: years by draws, education, child age"""
    j = fresh_index(si.cat.parts[1][0].n, "je")
    col = lambda n: si.entrant(n).at(j)
    return col


@ob("C09", "C26", text="at entry the stock is the weighted part-time and full-time years divided by the maximum of the entry period", anchor=INIT)
def entry_stock(x):
    si = x.B.sim()
    col = entry(si)
    e, a, pt, ft, st = col("Education_Level"), col("Age_Youngest_Child"), col("Experience_Part_Time"), col("Experience_Full_Time"), col("Experience_Stock")
    inc = O.pt_inc(e, a)
    yrs = pmul(pt, inc) + ft
    right = O.safe_div(yrs, O.max_years(si.k, inc))
    defect = O.safe_div(yrs, O.max_years(ZERO, inc))
    r = x.A.equal(st, right, where=[O.max_years(si.k, inc)])
    if r.status in ("proved", "agree", "undecided"):
        x.add("stock at entry", r.status, **r.info)
    else:
        d = x.A.equal(st, defect)
        if d.status in ("proved", "agree"):
            x.known("stock at entry", "entry-stock-period-zero", "experience at entry is divided by the maximum of period 0, not of the entry period")
        else:
            x.add("stock at entry", "refuted", **d.info)


@ob("C26", text="years of experience carried out of a period equal the years the next period starts with; not working never changes them", anchor=[LOOP, "soepy.shared.experience_stock.next_stock"])
def years_preserved(x):
    si = x.B.sim()
    st = SimState(si)
    p = si.nxt("Experience_Stock")
    a1 = si.nxt("Age_Youngest_Child")
    inc = O.pt_inc(st.e, st.a)
    for c in range(3):
        got = at_choice(si, p, c)
        out = pmul(st.x, O.max_years(st.k, inc)) + (ZERO, inc, ONE)[c]
        same = pmul(got, O.max_years(st.k + 1, inc))
        kw = dict(samplers={"gamma_p": nonneg_s("gamma_p"), "gamma_p_mom": nonneg_s("gamma_p_mom")})
        r = x.eq(f"years after choice {N[c]}, increment unchanged", same, out, **kw)
    inc1 = O.pt_inc(st.e, a1)
    got = at_choice(si, p, 0)
    read = pmul(got, O.max_years(st.k + 1, inc1))
    q, mp = si.at_transition()
    out = pmul(st.x, O.max_years(st.k, inc))
    r = x.A.equal(subst(read, mp), subst(out, mp), samplers={"gamma_p": nonneg_s("gamma_p"), "gamma_p_mom": nonneg_s("gamma_p_mom")})
    if r.status == "refuted" and all(p_["status"] in ("proved", "agree") for p_ in x.parts):
        x.known("years read by the next period", "stock-rescaled-with-current-increment", "the stock is rescaled with the current increment but read with the next period's")
    else:
        x.add("years read by the next period", r.status, **r.info)


def nonneg_s(name):
    from .valuation import small
    return small(name, 0, 2)


# ------------------------------------------------------------------ panel
@ob("C14", shards=2, text="the panel holds every agent exactly once per period from entry on, with constant identifier, education and type", anchor=[LOOP, INIT])
def panel(x):
    for sparse in x.share((False, True)):
        si = x.B.sim(sparse=sparse)
        lab = "reduced" if sparse else "full"
        A = leaf("A")
        j, k = si.j, si.k
        col = entry(si)
        hv, ent = si.cat.parts[0][0], si.cat.parts[1][0]
        x.eq(f"{lab}: one record per period of the loop", C(si.seg.n), T)
        x.eq(f"{lab}: no agents before the first period", C(si.old.n), ZERO)
        if C(si.item.n) is leaf(si.prefix + ".n", k) or si.item is si.cat:
            x.holds(f"{lab}: all rows are recorded", True)
        else:
            x.eq(f"{lab}: all rows are recorded", C(si.item.n), C(si.new.n))
        x.eq(f"{lab}: all rows continue", C(si.new.n), C(si.item.n))
        for nm in ("Identifier", "Education_Level", "Type"):
            x.eq(f"{lab}: {nm} stays", si.nxt(nm), si.s(nm))
            x.eq(f"{lab}: {nm} recorded", wrapless(si.rec(nm)), si.s(nm))
        x.eq(f"{lab}: period advances by one", si.nxt("Period"), k + 1)
        x.eq(f"{lab}: period recorded", wrapless(si.rec("Period")), C(k))
        x.eq(f"{lab}: entrants enter in their period", col("Period"), C(k))
        ident = col("Identifier")
        x.holds(f"{lab}: rows before entrants are kept in place", hv is si.hv and len(si.cat.parts) == 2, why="the carried agents are not the first rows")
        # entrants: every agent with education years k, none else
        e_of = lambda i: si_educ(si, i)
        j1 = fresh_index(ent.n, "jf")
        j2 = fresh_index(ent.n, "jg")
        first, second = si.entrant("Identifier").at(j1), si.entrant("Identifier").at(j2)
        gap = ge(j2 - j1 - 1)
        x.ge(f"{lab}: no identifier enters twice", pmul(gap, (first - second) * (first - second)), gap)
        cnt = sumd(lambda i: eq(leaf("educ_years", e_of(i)) - k), A)
        x.eq(f"{lab}: number of entrants in a period", C(ent.n), cnt)
        x.ge(f"{lab}: entrant identifiers lie among the agents", ident, ZERO)
        x.ge(f"{lab}: entrant identifiers lie among the agents (upper)", A - 1 - ident, ZERO)
        x.eq(f"{lab}: entrants are those whose education ends in the period", leaf("educ_years", e_of(ident)), C(k))
        x.eq(f"{lab}: entrant's education is her own", col("Education_Level"), e_of(ident))
        g = si.cat.guards[1] if len(si.cat.guards) > 1 else ONE
        for ed in range(3):
            x.ge(f"{lab}: entry is open in the entry period of education {ed}", C(g), eq(leaf("educ_years", ed) - k))


def si_educ(si, i):
    """education of agent i: the education draw"""
    d = next(n for n, v in si.I.draws.items() if v["dist"] == "choice" and v["order"] == 0)
    return leaf(d, i)


@ob("C14", shards=2, text="the reduced output has the same values as the full output in all its columns and the same rows", anchor=[PSIM, LOOP])
def sparse_same(x):
    for reg in x.share(REGIMES):
        fu, sp = x.B.sim(reg), x.B.sim(reg, sparse=True)
        mp = align(sp, fu)
        x.holds(f"{reg}: columns are among those of the full output", set(sp.df.cols) <= set(fu.df.cols), why=f"{set(sp.df.cols) - set(fu.df.cols)} not in the full output")
        for c in ("Period", "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Age_Youngest_Child", "Choice", "Identifier", "Wage_Observed", "Experience_Stock"):
            x.holds(f"{reg}: {c} is in the reduced output", c in sp.df.cols, why="column missing")
        for c in sp.df.cols:
            if c in fu.df.cols:
                x.eq(f"{reg}: {c}", mp(sp.rec(c)), fu.rec(c))
        for c in fu.new.cols:
            x.eq(f"{reg}: next {c}", mp(sp.nxt(c)), fu.nxt(c))
            x.eq(f"{reg}: entrant's {c}", mp(entry_at(sp, c)), entry_at(fu, c))


def entry_at(si, c):
    return si.entrant(c).at(fresh_idx(si))


_FI = {}


def fresh_idx(si):
    if "je" not in _FI:
        _FI["je"] = leaf("je")
    return _FI["je"]


declare("je", isint=True, lb=F(0), ub=F(0))


def align(a, b):
    """rename draws, prefixes and indexes of simulation a to those of b (same order of draws)"""
    da, db = list(a.I.draws), list(b.I.draws)
    ren = dict(zip(da, db)) if len(da) == len(db) else {}
    ak, aj = pl.single_atom(C(a.k)), pl.single_atom(a.j)

    def one(p):
        def fn(A):
            if A is ak:
                return C(b.k)
            if A is aj:
                return b.j
            if A.kind == "leaf":
                nm = A.args[0]
                new = ren.get(nm)
                if new is None and nm.startswith(a.prefix + "."):
                    new = b.prefix + nm[len(a.prefix):]
                if new is None and nm.startswith(a.base + "."):
                    new = b.base + nm[len(a.base):]
                if new is not None and new != nm:
                    return leaf(new, *[one(q) if isinstance(q, P) else q for q in A.args[1:]])
            return None
        return pl.subst_fn(p, fn)
    return one


# ------------------------------------------------------------------ definedness
@ob("C24", text="recorded flow utilities, values and wages are finite", anchor=[LOOP])
def sim_defined(x):
    for reg, sl in CTX:
        si = x.B.sim(reg, sl)
        for n in N:
            p = si.rec(f"Flow_Utility_{n}")
            defined(x, f"{reg}, splitting={sl}, flow utility {n}", p)
    si = x.B.sim()
    w, z = sim_wage(si)
    defined(x, "wage", w)
    for n in N:
        defined(x, f"continuation value {n}", si.rec(f"Continuation_Value_{n}"))


from .ob_solve import defined  # noqa: E402


# ------------------------------------------------------------------ entry conditions
def law_of(si, p, v):
    """P(p = v) for a value p of one draw"""
    ds = []
    for A in pl.leaf_atoms(p):
        if A.args[0] in si.I.draws and A not in ds:
            ds.append(A)
    inner = {a for A in ds for q in A.args[1:] for a in pl.p_deep(C(q))}
    ds = [A for A in ds if A.id not in inner]
    if len(ds) != 1:
        raise Unsupported(f"{len(ds)} draws behind one entry value")
    D = ds[0]
    d = si.I.draws[D.args[0]]
    if d["dist"] == "binomial":
        pr = prob_of(si, D)
        return pmul(pr, eq(subst(p, {D.id: ONE}) - v)) + pmul(ONE - pr, eq(subst(p, {D.id: ZERO}) - v))
    if d["dist"] != "choice":
        raise Unsupported(f"entry value drawn from {d['dist']}")
    n = d["params"]["n"]
    n = n.p() if isinstance(n, Arr) else C(n)
    pa = d["params"].get("p")
    pr = (lambda i: pa.at(i)) if isinstance(pa, Arr) else (lambda i: ONE / n)
    return sumd(lambda i: pmul(pr(i), eq(subst(p, {D.id: i}) - v)), n)


declare("ev", isint=True, lb=F(-2), ub=F(6))


@ob("C23", text="education, type, child age, partner and part-time and full-time years at entry are drawn from the table of that name and the agent's education", anchor=INIT)
def entry_draws(x):
    si = x.B.sim()
    col = entry(si)
    v = leaf("ev")
    kids, yrs = leaf("child_age_init_max") + 2, leaf("init_exp_max") + 1
    ed = pl.single_atom(col("Education_Level"))
    if ed is None or ed.kind != "leaf" or ed.args[0] not in si.I.draws:
        return x.undecided("education", "education at entry is not one draw")
    ref = lambda nm, n, *e, lo=0: sumd(lambda i: pmul(leaf(nm, *e, i), eq(i + lo - v)), n)
    x.eq("education", law_of(si, col("Education_Level"), v), ref("pe", C(3)))
    x.eq("type", law_of(si, col("Type"), v), ref("tsh", leaf("NT")))
    for e in range(3):
        at = lambda nm: pl.subst_fn(col(nm), lambda A: C(e) if A is ed else None)
        x.eq(f"age of the youngest child, education {e}", law_of(si, at("Age_Youngest_Child"), v), ref("pca", kids, C(e), lo=-1))
        x.eq(f"partner, education {e}", law_of(si, at("Partner_Indicator"), v), pmul(leaf("ppp", C(e)), eq(v - 1)) + pmul(ONE - leaf("ppp", C(e)), eq(v)))
        x.eq(f"part-time years, education {e}", law_of(si, at("Experience_Part_Time"), v), ref("ppt", yrs, C(e)))
        x.eq(f"full-time years, education {e}", law_of(si, at("Experience_Full_Time"), v), ref("pft", yrs, C(e)))
