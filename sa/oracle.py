"""Reference formulas transcribed from the property statements (terms over the same leaves as the analysed code)."""
from .poly import *
from . import poly as pl
from .world import child_bin

H = (F(0), F(18), F(38))
EPS = F(2) ** -52


def any_of(*c):
    r = ZERO
    for x in c:
        r = b_or(r, x)
    return r


def ssc(w):
    return pmul(leaf("ssc_rate"), pmin(w, leaf("ssc_cap")))


def tax(tab, y):
    """tab(i, j): 0 thresholds, 1 base amounts, 2 linear, 3 quadratic coefficients"""
    out = ZERO
    for j in range(4):
        inside = ge(y - tab(0, j))
        if j < 3:
            inside = pmul(inside, ONE - ge(y - tab(0, j + 1)))
        d = y - tab(0, j)
        out = out + pmul(inside, tab(1, j) + pmul(tab(2, j), d) + pmul(tab(3, j), pmul(d, d)))
    return out


def net(tab, f, m, splitting):
    """net household income; m is 0 without a partner"""
    tf, tm = f - ssc(f), m - ssc(m)
    single = tf - C(F(21, 20)) * tax(tab, tf)
    if splitting:
        couple = tf + tm - C(F(21, 20)) * 2 * tax(tab, (tf + tm) / 2)
    else:
        couple = tf + tm - C(F(21, 20)) * (tax(tab, tf) + tax(tab, tm))
    return select(gt(m), couple, single)


def max_years(t, inc):
    return leaf("init_exp_max") + pmax(t, pmul(t, inc))


def safe_div(a, b):
    """a / b, and a where b is not positive"""
    return select(gt(b), a / b, a)


def next_stock(x, t, inc, choice):
    yrs = pmul(x, max_years(t, inc))
    add = (ZERO, inc, ONE)[choice] if isinstance(choice, int) else pmul(eq(choice - 1), inc) + eq(choice - 2)
    return pmin(pmax(safe_div(yrs + add, max_years(t + 1, inc)), ZERO), ONE)


def pt_inc(e, a):
    """true part-time increment"""
    return leaf("gamma_p", e) + pmul(pmul(ge(a), ge(2 - a)), leaf("gamma_p_mom"))


def log_wage(e, x, t, inc):
    return leaf("gamma_0", e) + pmul(leaf("gamma_1", e), log(pmul(x, max_years(t, inc)) + 1))


def interp(grid, vals, x, n):
    """linear interpolation on an increasing grid: sum over cells of the segment containing x"""
    # written as v(lo) + (x - grid lo) * slope with lo = number of interior grid points <= x
    lo = sumd(lambda i: pmul(ge(i - 1), pmul(ge(n - 2 - i), ge(x - grid(i)))), n)
    a, b = grid(lo), grid(lo + 1)
    return vals(lo) + pmul((x - a) / (b - a), vals(lo + 1) - vals(lo))


def interp_count(grid, vals, x, n):
    """the same with the segment found by counting the grid points <= x, clipped to 1..n-1 (grid increasing)"""
    hi = pmin(pmax(sumd(lambda i: ge(x - grid(i)), n), ONE), n - 1)
    a, b = grid(hi - 1), grid(hi)
    w = select(gt(b - a), (x - a) / (b - a), ZERO)
    return vals(hi - 1) + pmul(w, vals(hi) - vals(hi - 1))


def nonpec(choice, b, e, ty):
    """factor of non-pecuniary utility"""
    if choice == 0:
        return ONE
    f = select(eq(b), leaf("no_kids_f", e), leaf("yes_kids_f", e)) + pmul(eq(b - 1), leaf("child_0_2_f")) + pmul(eq(b - 2), leaf("child_3_5_f")) \
        + pmul(eq(b - 3), leaf("child_6_10_f"))
    if choice == 2:
        return exp(leaf("theta_f", ty) + f)
    p = select(eq(b), leaf("no_kids_p", e), leaf("yes_kids_p", e)) + pmul(eq(b - 1), leaf("child_0_2_p")) + pmul(eq(b - 2), leaf("child_3_5_p")) \
        + pmul(eq(b - 3), leaf("child_6_10_p"))
    return exp(leaf("theta_p", ty) + f + p)


class Budget:
    """flow side of the model at one state: education e, lagged choice l, type ty, age of youngest child a, partner pa,
    partner wage m, equivalence scale q, child benefit cb, experience stock x, period t, wage shock z"""

    def __init__(self, tab, regime, splitting, t, e, l, ty, a, pa, m, q, cb, x, inc, floor=C(EPS)):
        self.__dict__.update(tab=tab, regime=regime, splitting=splitting, t=t, e=e, l=l, ty=ty, a=a, pa=pa, m=m, q=q, cb=cb, x=x, inc=inc, floor=floor)

    def logw(self):
        return log_wage(self.e, self.x, self.t, self.inc) + log(leaf("scale"))

    def wage(self, z):
        return exp(self.logw() + z)

    def benefits(self, logw=None):
        return benefits(self.regime, self.l, self.a, self.pa, self.logw() if logw is None else logw, self.m, self.cb)

    def resources(self, c, z):
        """resources before the floor"""
        if c == 0:
            return net(self.tab, ZERO, self.m, self.splitting) + self.benefits()
        f = C(H[c]) * self.wage(z)
        r = net(self.tab, f, self.m, self.splitting) + self.cb
        if self.regime == "erziehungsgeld" and c == 1:
            r = r + erz(self.pa, self.a, self.m + f)
        b = child_bin(self.a)
        return r - pmul(eq(b - 1), leaf("ccc", 1, c - 1)) - pmul(eq(b - 2), leaf("ccc", 2, c - 1))

    def flow(self, c, z, ncu):
        mu = leaf("mu")
        cons = pmax(self.resources(c, z), self.floor) / self.q
        return pmul(ppow(cons, mu) / mu, ncu)


def erz(pa, a, income):
    thr = select(pa, leaf("erz_inc_m"), leaf("erz_inc_s"))
    return pmul(pmul(any_of(eq(a), eq(a - 1)), ge(thr - income)), leaf("erz"))


def alg2(a, pa):
    R = leaf
    nochild = eq(a + 1)
    s = R("regelsatz_single") + R("housing_single")
    mum = s + R("regelsatz_child") + R("addition_child_single") + R("housing_addtion")
    return pmul(ONE - pa, select(nochild, s, mum))


def benefits(regime, l, a, pa, logw, m, cb):
    nochild = eq(a + 1)
    prox = C(F(13, 20)) * exp(logw) * (eq(l - 1) * C(H[1]) + eq(l - 2) * C(H[2]))
    worked = eq(l - 1) + eq(l - 2)
    alg1 = pmul(worked, select(nochild, pmul(leaf("alg1_nc"), prox), pmul(leaf("alg1_c"), prox) + cb))
    if regime == "elterngeld":
        eg = pmul(worked, pmin(pmax(pmul(leaf("egr"), prox), leaf("egmin")), leaf("egmax")) + cb)
        return pmax(select(eq(a), eg, alg1), alg2(a, pa))
    ben = pmax(alg1, alg2(a, pa))
    return ben + erz(pa, a, m + ben)
