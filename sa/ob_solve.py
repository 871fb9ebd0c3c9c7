"""The solution: Bellman recursion, continuation values, integration, experience law, definedness."""
from .build import *
from .model import *
from .framework import ob
from . import poly as pl
from . import oracle as O
from .values import AbsRaise

PS = "soepy.solve.solve_python.pyth_solve"
BI = "soepy.solve.solve_python.pyth_backward_induction"
EMAX = "soepy.solve.emaxs.construct_emax"
EMAXV = "soepy.solve.validation_solve.construct_emax_validation"
CONT = "soepy.solve.continuous_continuation.interpolate_then_weight_continuation_values"
INTERP = "soepy.shared.interpolation.linear_interp_1d"
INTEG = "soepy.shared.numerical_integration.get_integration_draws_and_weights"
ES = "soepy.shared.experience_stock."
WAGE = "soepy.shared.wages.calculate_log_wage"
CTX = [(reg, sl) for reg in REGIMES for sl in (True, False)]

declare("Vn", sample=None)
declare("xq", lb=F(0), ub=F(1))
declare("vals")
declare("Kn", isint=True, lb=F(1), sample=(1, 2, 3))


def nodes(method):
    """(count, node, weight) of a standard normal under the integration method"""
    K = leaf("K")
    if method == "quadrature":
        return K, lambda i: pmul(ppow(C(2), F(1, 2)), leaf("gh_x", i, K)), lambda i: leaf("gh_w", i, K) / ppow(leaf("pi"), F(1, 2))
    return K, None, lambda i: ONE / K


def mc_draw(so):
    """leaf of the Monte Carlo draw feeding the solution"""
    ds = [(n, d) for n, d in so.I.draws.items() if d["dist"] in ("normal", "standard_normal")]
    if len(ds) != 1:
        raise Unsupported(f"{len(ds)} normal draws behind the integration nodes")
    return ds[0]


def node_of(so, method):
    if method == "quadrature":
        K, node, w = nodes(method)
        return node, w, None
    n, d = mc_draw(so)
    rank = len(d["shape"])
    return (lambda i: leaf(n, *([ZERO] * (rank - 1)), i)), (lambda i: ONE / leaf("K")), d


@ob("C08", "C22", shards=7, text="the solved value is the weighted sum over wage nodes of the best of flow utility plus discounted continuation, for both regimes, "
    "tax options and integration methods", anchor=[PS, EMAX, EMAXV, INTEG])
def bellman_sum(x):
    runs = [(reg, sl, False, "quadrature") for reg, sl in CTX] + [("elterngeld", True, True, "quadrature"), ("erziehungsgeld", False, True, "quadrature"),
                                                                 ("elterngeld", True, False, "monte_carlo")]
    if x.tier == "thorough":
        runs = [(reg, sl, b, m) for reg, sl in CTX for b in (False, True) for m in ("quadrature", "monte_carlo")]
    for reg, sl, biased, method in x.share(runs):
        so = x.B.solve(reg, sl, biased, method)
        bud = budget(so, reg, sl, biased)
        node, w, _ = node_of(so, method)
        b = child_bin(bud.a)

        def term(i):
            z = pmul(node(i), leaf("shock_sd"))
            return pmul(w(i), pmax(*[bud.flow(c, z, O.nonpec(c, b, bud.e, bud.ty)) + pmul(leaf("delta"), so.em(c)) for c in range(3)]))
        x.split(f"{reg}, splitting={sl}, biased={biased}, {method}", so.em(3), sumd(term, leaf("K")), state_cells(so.r), [BI, EMAX if reg == "elterngeld" else EMAXV])


@ob("C08", "C25", text="the non-pecuniary factors returned with the solution are those of the state", anchor=BI)
def returned_ncu(x):
    so = x.B.solve()
    r = so.r
    e, l, ty, a, pa = [leaf(n, r) for n in COLS[1:]]
    for c in range(3):
        x.eq(f"choice {c}", so.ncu(c), O.nonpec(c, child_bin(a), e, ty))


def carry_rules(x, so):
    """how values carried between periods relate to solved values: returns substitution of carried leaves by solved values"""
    I, t = so.I, so.t
    rules = {}
    for name, d, lp in so.carry():
        init, nxt = L.to_arr(I, d["init"]), L.to_arr(I, d["next"])
        if len(nxt.shape) < 2:
            continue
        idx = [so.s, so.g] + [fresh_index(n, "c") for n in nxt.shape[2:]]
        ok = None
        for last in (False, True):
            comp = []
            for c in (range(4) if len(nxt.shape) == 3 else [3]):
                ii = [so.s, so.g] + ([C(c)] if len(nxt.shape) == 3 else [])
                body = subst(nxt.at(*ii), {pl.single_atom(lp.k).id: leaf("T") - 1 - t}) if pl.single_atom(lp.k) is not None else None
                if body is None:
                    break
                r = x.A.equal(body, so.em(c), n=20)
                comp.append(r.status in ("proved", "agree"))
            ok = comp and all(comp)
            break
        if not ok:
            raise Unsupported("the value carried from period to period is not the period's solved value")
        first = [x.A.equal(init.at(so.s, so.g, *([C(c)] if len(init.shape) == 3 else [])), ZERO).status for c in (range(4) if len(init.shape) == 3 else [3])]
        rules[name] = (len(nxt.shape), "refuted" if "refuted" in first else "undecided" if "undecided" in first else "proved")
    return rules


def in_values(so, rules, p):
    """replace carried leaves by Vn(period, state in period, grid point, component)"""
    def fn(A):
        if A.kind == "leaf" and A.args[0] in rules:
            nd, _ = rules[A.args[0]]
            k, s, g = A.args[1:4]
            c = A.args[4] if nd == 3 else C(3)
            # carried into iteration k = solved in iteration k - 1, of period T - k
            per = leaf("T") - C(k)
            if C(k) is ZERO or C(k).is_const() and C(k).const() == 0:
                return ZERO
            return leaf("Vn", per, s, g, c)
        return None
    return pl.subst_fn(p, fn)


@ob("C08", "C09", "C10", "C07", shards=2, text="each continuation value is next period's solved value at the successor state and the experience the choice leads to, averaged over births "
    "and partners with this period's probabilities; zero in the last period", anchor=[BI, CONT])
def continuation(x):
    T, S = leaf("T"), leaf("S")
    for biased in x.share((False, True)):
        so = x.B.solve("elterngeld", True, biased)
        rules = carry_rules(x, so)
        lab = f"biased={biased}: values after the last period are zero"
        if not rules or any(z == "undecided" for _, z in rules.values()):
            x.undecided(lab, "no value carried between periods" if not rules else "first carried value")
        else:
            x.holds(lab, all(z == "proved" for _, z in rules.values()), why="the recursion does not start from zero")
        t, s, g, r = so.t, so.s, so.g, so.r
        e, l, ty, a, pa = [leaf(n, r) for n in COLS[1:]]
        inc = belief(e, a, biased)
        q = fresh_index(T - 1, "q")
        for c in range(3):
            got = in_values(so, rules, so.em(c))
            x1 = O.next_stock(leaf("grid", g), t, inc, c)
            ref = ZERO
            for b in (0, 1):
                pb = leaf("pc", t, e) if b else ONE - leaf("pc", t, e)
                for np_ in (0, 1):
                    stay = select(pa, ONE - leaf("psep", t, e), leaf("parr", t, e))
                    pp = stay if np_ else ONE - stay
                    loc = leaf("csi", r, C(c), C(b), C(np_)) - pmul(t + 1, S)
                    v = O.interp_count(lambda i: leaf("grid", i), lambda i, loc=loc: leaf("Vn", t + 1, loc, i, C(3)), x1, leaf("G"))
                    ref = ref + pmul(pmul(pb, pp), v)
            mp = {pl.single_atom(t).id: q}
            x.split(f"biased={biased}, choice {c}, before the last period", subst(got, mp), subst(ref, mp), state_cells(subst(r, mp), lags=(0,)))
            x.eq(f"biased={biased}, choice {c}, last period", in_values(so, {n: v for n, v in rules.items()}, subst(so.em(c), {pl.single_atom(t).id: T - 1})), ZERO)


@ob("C08", shards=3, text="the same continuation values are used in the other regime and tax option", anchor=BI)
def continuation_same(x):
    base = x.B.solve("elterngeld", True)
    rb = carry_rules(x, base)
    for reg, sl in x.share(CTX[1:]):
        so = x.B.solve(reg, sl)
        rr = carry_rules(x, so)
        mp = {pl.single_atom(so.t).id: base.t, pl.single_atom(so.s).id: base.s, pl.single_atom(so.g).id: base.g}
        for c in range(3):
            x.eq(f"{reg}, splitting={sl}, choice {c}", subst(in_values(so, rr, so.em(c)), mp), in_values(base, rb, base.em(c)))


@ob("C08", text="one row per state, one column per grid point, four values", anchor=PS)
def value_layout(x):
    so = x.B.solve()
    em, nc = L.to_arr(so.I, so.em_arr), L.to_arr(so.I, so.ncu_arr)
    for nm, got, ref in (("rows", em.shape[0], leaf("T") * leaf("S")), ("grid points", em.shape[1], leaf("G")), ("values", em.shape[2], C(4)),
                         ("rows of non-pecuniary factors", nc.shape[0], leaf("T") * leaf("S")), ("choices", nc.shape[1], C(3))):
        x.eq(nm, got, ref)


# ------------------------------------------------------------------ interpolation
@ob("C07", text="interpolation in the solution is linear on the given increasing grid, equally spaced or not, at every point of [0, 1]", anchor=INTERP)
def interp_solve(x):
    G = leaf("G")
    grid = nlist("grid", G, "float", "jax")
    v = Arr((G,), lambda i: leaf("vals", i), "float", "jax")
    I = x.B.shared()
    q = leaf("xq")
    got = L.to_arr(I, x.B.call(INTERP, grid, v, scalar(q, "float", "jax"))).at()
    ref = O.interp(lambda i: leaf("grid", i), lambda i: leaf("vals", i), q, G)
    x.eq("one query point", got, ref)
    x.eq("one query point, segment by count", got, O.interp_count(lambda i: leaf("grid", i), lambda i: leaf("vals", i), q, G))
    n = leaf("Kn")
    qs = Arr((n,), lambda j: leaf("xqs", j), "float", "jax")
    j = fresh_index(n, "j")
    got = L.to_arr(I, x.B.call(INTERP, grid, v, qs)).at(j)
    x.eq("vector of query points", got, O.interp(lambda i: leaf("grid", i), lambda i: leaf("vals", i), leaf("xqs", j), G))
    k = fresh_index(G, "k")
    x.eq("value at a grid point is the tabulated value", L.to_arr(I, x.B.call(INTERP, grid, v, scalar(leaf("grid", k), "float", "jax"))).at(), leaf("vals", k))


declare("xqs", lb=F(0), ub=F(1))


# ------------------------------------------------------------------ experience
@ob("C09", text="maximum attainable years, conversion and accumulation are the stated law for every stock, period, increment and choice", anchor=[ES + "max_exp_years", ES + "next_stock"])
def experience_law(x):
    I = x.B.shared()
    t, inc, s = leaf("per"), leaf("pinc"), leaf("xq")
    N = lambda p, dt="float": scalar(p, dt)
    num = lambda v: L.to_arr(I, v).at()
    kw = dict(period=N(t, "int"), init_exp_max=N(leaf("init_exp_max"), "int"), pt_increment=N(inc))
    x.eq("maximum years", num(x.B.call(ES + "max_exp_years", **kw)), O.max_years(t, inc), ES + "max_exp_years")
    yrs = num(x.B.call(ES + "stock_to_exp_years", stock=N(s), **kw))
    x.eq("years of a stock", yrs, pmul(s, O.max_years(t, inc)), ES + "stock_to_exp_years")
    y = leaf("yrs")
    st = num(x.B.call(ES + "exp_years_to_stock", exp_years=N(y), **kw))
    x.eq("stock of years", st, O.safe_div(y, O.max_years(t, inc)), ES + "exp_years_to_stock")
    back = num(x.B.call(ES + "exp_years_to_stock", exp_years=N(yrs), **kw))
    x.eq("stock to years to stock is lossless", back, s, [ES + "stock_to_exp_years", ES + "exp_years_to_stock"], where=[O.max_years(t, inc)])
    forth = num(x.B.call(ES + "stock_to_exp_years", stock=N(st), **kw))
    x.eq("years to stock to years is lossless", forth, y, [ES + "stock_to_exp_years", ES + "exp_years_to_stock"], where=[O.max_years(t, inc)])
    for c in range(3):
        got = num(x.B.call(ES + "next_stock", stock=N(s), choice=N(C(c), "int"), **kw))
        x.eq(f"next stock, choice {c}", got, O.next_stock(s, t, inc, c), ES + "next_stock")
        x.ge(f"next stock at least 0, choice {c}", got, ZERO, ES + "next_stock")
        x.ge(f"next stock at most 1, choice {c}", ONE, got, ES + "next_stock")
        ny = num(x.B.call(ES + "next_exp_years", N(y), N(C(c), "int"), N(inc)))
        x.eq(f"years after choice {c}", ny, y + (ZERO, inc, ONE)[c], ES + "next_exp_years")


declare("per", isint=True, lb=F(0))
declare("pinc", lb=F(0), sample=(F(0), F(1, 2), F(1), F(3, 2)))
declare("yrs", lb=F(0))
declare("agek", isint=True, lb=F(-1), ub=F(12), sample=(-1, 0, 1, 2, 3, 4))


@ob("C09", "C10", text="part-time increment: education-specific rate plus the mothers' bonus exactly for children aged 0 to 2; one under biased expectations", anchor=ES + "get_pt_increment")
def pt_increment(x):
    I = x.B.shared()
    n = leaf("A")
    educ = Arr((n,), lambda i: leaf("ed", i), "int", "np")
    for lib in ("np", "jax"):
        educ = Arr((n,), lambda i: leaf("ed", i), "int", lib)
        for a in list(range(-1, 5)) + ["older"]:
            av = C(a) if a != "older" else leaf("kidx") + 5
            kid = Arr((n,), lambda i: av, "int", lib)
            i = fresh_index(n, "i")
            got = L.to_arr(I, x.B.call(ES + "get_pt_increment", model_params=params(), educ_level=educ, child_age=kid, biased_exp=False)).at(i)
            ref = leaf("gamma_p", leaf("ed", i)) + (leaf("gamma_p_mom") if a in (0, 1, 2) else ZERO)
            x.eq(f"{lib}, child age {a}", got, ref)
            b = L.to_arr(I, x.B.call(ES + "get_pt_increment", model_params=params(), educ_level=educ, child_age=kid, biased_exp=True)).at(i)
            x.eq(f"{lib}, biased, child age {a}", b, ONE)


declare("ed", isint=True, lb=F(0), ub=F(2))


@ob("C09", text="systematic log wages are the education constant plus the education return times log(experience years + 1)", anchor=WAGE)
def log_wage(x):
    I = x.B.shared()
    n = leaf("A")
    i = fresh_index(n, "i")
    ar = lambda f, dt="float": Arr((n,), f, dt, "np")
    got = L.to_arr(I, x.B.call(WAGE, model_params=params(), educ=ar(lambda i: leaf("ed", i), "int"), exp_stock=ar(lambda i: leaf("xqs", i)),
                               init_exp_max=scalar(leaf("init_exp_max"), "int"), pt_increment=ar(lambda i: leaf("pincs", i)), period=scalar(leaf("per"), "int"))).at(i)
    x.eq("log wage", got, O.log_wage(leaf("ed", i), leaf("xqs", i), leaf("per"), leaf("pincs", i)))


declare("pincs", lb=F(0))


# ------------------------------------------------------------------ integration nodes
@ob("C22", text="quadrature nodes and weights are those of a standard normal; Monte Carlo draws are standard normal with equal weights; count as specified", anchor=INTEG)
def integration(x):
    for method in ("quadrature", "monte_carlo"):
        I = x.B.fresh()
        sp = spec(I, method=method)
        r = run(I, I.get(INTEG), [sp])
        items = r if isinstance(r, tuple) else I.iterate(r)[1]
        d, w = [L.to_arr(I, v) for v in items]
        K = leaf("K")
        x.eq(f"{method}: number of nodes", d.shape[-1], K)
        x.eq(f"{method}: number of weights", w.shape[-1], K)
        x.holds(f"{method}: one-dimensional", len(d.shape) == 1 and len(w.shape) == 1)
        i = fresh_index(K, "i")
        if method == "quadrature":
            _, node, wt = nodes(method)
            x.eq("quadrature: node", d.at(i), node(i))
            x.eq("quadrature: weight", w.at(i), wt(i))
        else:
            x.eq("monte_carlo: weight", w.at(i), ONE / K)
            node_is_normal(x, "monte_carlo", I, d.at(i))
        sm = sumd(lambda k: w.at(k), K)
        x.eq(f"{method}: weights sum to one", sm, ONE)
        if method == "quadrature":
            x.eq(f"{method}: mean of squared nodes is one", sumd(lambda k: pmul(w.at(k), pmul(d.at(k), d.at(k))), K), ONE, where=[K - C(F(3, 2))])


def node_is_normal(x, label, I, p, sd=ONE, anchor=None):
    """p is one normal draw with mean zero and standard deviation sd"""
    names = [nm for nm in pl.leaf_names(p) if nm in I.draws]
    normal = [nm for nm in names if I.draws[nm]["dist"] == "normal"]
    if len(names) != 1 or not normal:
        x.undecided(f"{label}: node", f"draws behind the node: {[I.draws[n]['dist'] for n in names]}", anchor)
        return None
    z = [A for A in pl.leaf_atoms(p) if A.args[0] == names[0]]
    if len(z) != 1:
        x.undecided(f"{label}: node", "several draws behind one node", anchor)
        return None
    x.eq(f"{label}: mean zero and the stated spread", p, pmul(sd, atomP(z[0])), anchor)
    return I.draws[names[0]]


# ------------------------------------------------------------------ definedness
def log_args(p):
    return {ATOMS[a].args[0] for a in pl.p_deep(p) if ATOMS[a].kind == "log"}


def defined(x, label, p, anchor=None, **kw):
    """every logarithm / power base is positive by sign analysis, or else the graph stays finite under random interpretation"""
    args = log_args(p)
    left = [q for q in args if not pl.positive(q)]
    if not left and args:
        return x.add(f"{label}: bases of powers and logarithms are positive", "proved", anchor, how="sign analysis", bases=len(args))
    r = x.A.finite(p, **kw)
    return x.add(f"{label}: defined and finite", r.status, anchor, **dict(r.info, unproved=[pl.show(q)[:80] for q in left][:3]))


@ob("C24", shards=4, text="solved values are finite: resources raised to the risk parameter are positive and the argument of the experience logarithm is at least one", anchor=[EMAX, EMAXV, WAGE])
def solve_defined(x):
    for reg, sl in x.share(CTX):
        so = x.B.solve(reg, sl)
        defined(x, f"solved value, {reg}, splitting={sl}", so.em(3), [EMAX if reg == "elterngeld" else EMAXV])
    if not x.first():
        return
    so = x.B.solve()
    for c in range(3):
        defined(x, f"continuation value, choice {c}", so.em(c), [CONT])
        defined(x, f"non-pecuniary factor, choice {c}", so.ncu(c))
    I = x.B.shared()
    got = L.to_arr(I, x.B.call(WAGE, model_params=params(), educ=scalar(leaf("ed", ZERO), "int"), exp_stock=scalar(leaf("xq"), "float"), init_exp_max=scalar(leaf("init_exp_max"), "int"),
                               pt_increment=scalar(leaf("pinc"), "float"), period=scalar(leaf("per"), "int"))).at()
    for q in log_args(got):
        x.ge("argument of the experience logarithm is at least one", q, ONE, WAGE)
