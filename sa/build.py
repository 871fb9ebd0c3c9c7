"""Runs of the abstract interpreter on the public parts, and what they yield."""
from .world import *
from . import poly as pl

STATE_HINTS = {
    "Age_Youngest_Child": dict(isint=True, lb=F(-1), ub=lambda *a: leaf("CAM")),
    "Partner_Indicator": dict(binary=True),
    "Lagged_Choice": dict(isint=True, lb=F(0), ub=F(2)),
    "Education_Level": dict(isint=True, lb=F(0), ub=F(2)),
    "Type": dict(isint=True, lb=F(0), ub=lambda *a: leaf("NT") - 1),
    "Experience_Stock": dict(lb=F(0), ub=F(1)),
    "Experience_Part_Time": dict(isint=True, lb=F(0)),
    "Experience_Full_Time": dict(isint=True, lb=F(0)),
    "Identifier": dict(isint=True, lb=F(0), ub=lambda *a: leaf("A") - 1),
    "Period": dict(isint=True, rewrite=lambda *a: a[0] if len(a) == 2 else None),
}
STATE = ("Period", "Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator", "Experience_Stock",
         "Experience_Part_Time", "Experience_Full_Time", "Identifier")


def prob_rows(n, m):
    return Arr((3, m), lambda e, i: leaf(n, e, i), "float", "list")


def declare_sim():
    for n in ("pe", "pca", "ppp", "ppt", "pft"):
        declare(n, lb=F(0), ub=F(1))


class Solve:
    """value graph of the solution at state (t, s), grid point g"""

    def __init__(self, I, spec_, ncu, em):
        self.I, self.spec = I, spec_
        self.ncu_arr, self.em_arr = ncu, em
        self.t = fresh_index(leaf("T"), "t")
        self.s = fresh_index(leaf("S"), "s")
        self.g = fresh_index(leaf("G"), "g")
        self.r = self.t * leaf("S") + self.s
        self._e = {}

    def em(self, c):
        if c not in self._e:
            self._e[c] = L.to_arr(self.I, self.em_arr).at(self.r, self.g, C(c))
        return self._e[c]

    def ncu(self, c):
        return L.to_arr(self.I, self.ncu_arr).at(self.r, C(c))

    def carry(self):
        """the loop-carried next-period solution: (leaf name, summary entry) of the scan"""
        return [(n, d, lp) for lp in self.I.loops if lp.kind == "scan" for n, d in lp.carried.items()]


class Sim:
    """recorded panel of one simulation: row = (period k, position j)"""

    def __init__(self, I, spec_, df):
        self.I, self.spec, self.df = I, spec_, df
        self.final = next((c for c in I.concats.values() if c.prefix == df.meta.get("concat")), None)
        self.item = self.k = self.loop = None
        if self.final is None or len(self.final.parts) != 1 or not isinstance(self.final.parts[0][0], Seg):
            raise Unsupported("the simulated data are not one concatenation of per-period frames")
        seg = self.final.parts[0][0]
        if len(seg.items) != 1 or not isinstance(seg.items[0], DF):
            raise Unsupported("per-period record is not one frame")
        self.seg, self.item, self.k = seg, seg.items[0], seg.k
        self.j = fresh_index(self.item.n, "j")
        lps = [lp for lp in I.loops if lp.k is self.k or (isinstance(lp.k, P) and lp.k is self.k)]
        self.loop = lps[0] if lps else None
        self.base = None
        for lp in ([self.loop] if self.loop else []):
            for pre, (key, old, hv, new) in lp.frames.items():
                if "Experience_Stock" in hv.cols or self.base is None:
                    self.base, self.key, self.old, self.hv, self.new = pre, key, old, hv, new
        # frames built by appending entrants to the carried frame
        self.cats = [c for c in I.concats.values() if c.parts and c.parts[0][0] is getattr(self, "hv", None)]
        self.cat = self.cats[-1] if self.cats else None
        self.prefix = self.cat.prefix if self.cat else self.base

    def s(self, name, j=None):
        """state at the start of the period (leaf)"""
        return leaf(f"{self.prefix}.{name}", self.k, self.j if j is None else j)

    def rec(self, name):
        """recorded value of a column in the row (k, j)"""
        J = fresh_index(self.final.n, "J")
        p = self.df.cols[name].at(J)
        pre = self.final.prefix + "."

        def fn(A):
            if A.kind == "leaf" and isinstance(A.args[0], str) and A.args[0].startswith(pre) and A.args[-1] is J:
                return self.item.cols[A.args[0][len(pre):]].at(self.j)
            return None
        return pl.subst_fn(p, fn)

    def nxt(self, name):
        return self.new.cols[name].at(self.j)

    def at_transition(self):
        """substitution to a row of a period that has a successor"""
        q = fresh_index(leaf("T") - 1, "q")
        k = pl.single_atom(C(self.k)).id
        return q, {k: q, pl.single_atom(self.j).id: fresh_index(subst(self.item.n, {k: q}), "j")}

    def entrant(self, name):
        """column of the frame appended to the carried one; index is the position in that frame"""
        return self.cat.parts[1][0].cols[name]


class Build:
    def __init__(self, root):
        self.root = root
        self.cache = {}
        self.interps = []

    def functions(self):
        return {f"{m}.{n}" for I in self.interps for m, n in I.funcs}

    def assumptions(self):
        return {a for I in self.interps for a in I.assumptions}

    def shared(self):
        """one interpreter for calls of single functions"""
        return self.get("shared", self.fresh)

    def call(self, name, *args, **kw):
        """value graph of one function's result on symbolic arguments"""
        I = self.shared()
        V.set_ctx(I)
        return run(I, I.get(name), list(args), kw)

    def fresh(self):
        I = analyser(self.root)
        self.interps.append(I)
        declare_sim()
        I.hints.update(STATE_HINTS)
        return I

    def get(self, key, fn):
        if key not in self.cache:
            try:
                self.cache[key] = (fn(), None)
            except (Unsupported, AbsRaise) as e:
                self.cache[key] = (None, e)
        v, e = self.cache[key]
        if e is not None:
            raise e
        return v

    def solve(self, regime="elterngeld", splitting=True, biased=False, method="quadrature"):
        return self.get(("solve", regime, splitting, biased, method), lambda: self.solve_in(self.fresh(), regime, splitting, biased, method))

    def solve_in(self, I, regime="elterngeld", splitting=True, biased=False, method="quadrature"):
        sp, r = solve(I, regime, splitting, biased, method)
        if not isinstance(r, tuple) and not isinstance(r, PList):
            raise Unsupported("solution is not a pair")
        items = r if isinstance(r, tuple) else I.iterate(r)[1]
        return Solve(I, sp, items[0], items[1])

    def sim(self, regime="elterngeld", splitting=True, biased=False, sparse=False, method="quadrature", **over):
        if over:
            return self.sim_in(self.fresh(), regime, splitting, biased, sparse, method, **over)
        return self.get(("sim", regime, splitting, biased, sparse, method), lambda: self.sim_in(self.fresh(), regime, splitting, biased, sparse, method))

    def sim_in(self, I, regime="elterngeld", splitting=True, biased=False, sparse=False, method="quadrature", **over):
        sp = spec(I, regime, splitting, method)
        fn = I.get("soepy.simulate.simulate_auxiliary.pyth_simulate")
        em = Arr((leaf("T") * leaf("S"), leaf("G"), C(4)), lambda r, g, c: leaf("em", r, g, c), "float", "jax")
        ncu = Arr((leaf("T") * leaf("S"), C(3)), lambda r, c: leaf("ncu", r, c), "float", "jax")
        kw = dict(
            model_params=params(), model_spec=sp, states=states_arr(), indexer=indexer_arr(), emaxs=em, covariates=cov_arr(),
            non_consumption_utilities=ncu, child_age_update_rule=caur_arr(), prob_educ_level=nlist("pe", 3, "float", "list"),
            prob_child_age=prob_rows("pca", leaf("child_age_init_max") + 2), prob_partner_present=nlist("ppp", 3),
            prob_exp_pt=prob_rows("ppt", leaf("init_exp_max") + 1), prob_exp_ft=prob_rows("pft", leaf("init_exp_max") + 1),
            prob_child=prob_child_arr(), prob_partner=prob_partner_arr(), biased_exp=biased, data_sparse=sparse)
        kw.update(over)
        df = run(I, fn, [], kw)
        if not isinstance(df, DF):
            raise Unsupported("simulation result is not a frame")
        return Sim(I, sp, df)
