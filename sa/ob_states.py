"""State space, successor table, covariates, probability tables."""
from .build import *
from .framework import ob
from . import poly as pl
from . import oracle as O
from .values import AbsRaise

CS = "soepy.solve.create_state_space.create_state_space_objects"
CDS = "soepy.solve.create_state_space.create_discrete_state_space"
CCI = "soepy.solve.create_state_space.create_child_indexes"
COV = "soepy.solve.covariates.construct_covariates"
CAU = "soepy.exogenous_processes.children.define_child_age_update_rule"
declare("E", isint=True, lb=F(1), sample=(1, 2, 3))
DIM_SAMPLE = {"E": lambda v, a: F(v.rnd("E").randint(1, 3))}


class Space:
    pass


def space(x):
    def f():
        s = Space()
        I = s.I = x.B.fresh()
        s.spec = spec(I, num_educ_levels=sc("E"))
        r = run(I, I.get(CS), [s.spec])
        items = r if isinstance(r, tuple) else I.iterate(r)[1]
        s.st, s.ix, s.cov, s.caur, s.csi = [L.to_arr(I, v) for v in items]
        return s
    return x.B.get("space", f)


def combos():
    """symbolic combinations, split over partner status and childlessness (exhaustive)"""
    p, e, l, ty = [fresh_index(n, m) for n, m in ((leaf("T"), "p"), (leaf("E"), "e"), (C(3), "l"), (leaf("NT"), "ty"))]
    for pa in (0, 1):
        for kid in ("none", "age"):
            a = fresh_index(leaf("CAM") + 1, "a") if kid == "age" else C(-1)
            ki = a if kid == "age" else leaf("CAM") + 1
            yield f"partner={pa}, child={kid}", (p, e, l, ty, ki, C(pa)), (p, e, l, ty, a, C(pa))


@ob("C12", text="every combination has one row, the index table returns it, and the number of rows is the number of combinations", anchor=CDS)
def bijection(x):
    s = space(x)
    T, E, NT_, CAM = leaf("T"), leaf("E"), leaf("NT"), leaf("CAM")
    total = pmul(pmul(pmul(T, E), pmul(C(6), NT_)), CAM + 2)
    x.eq("number of states", s.st.shape[0], total)
    x.holds("index table has one axis per state variable", len(s.ix.shape) == 6)
    for d, (got, ref) in enumerate(zip(s.ix.shape, (T, E, C(3), NT_, CAM + 2, C(2)))):
        x.eq(f"index table axis {d}", got, ref)
    names = ("period", "education", "lagged choice", "type", "age of youngest child", "partner")
    per = pmul(pmul(E, C(6)), pmul(NT_, CAM + 2))
    for lab, ix, vals in combos():
        row = s.ix.at(*ix)
        for c in range(6):
            x.eq(f"{names[c]} of the row indexed for ({lab})", s.st.at(row, C(c)), vals[c])
        x.ge(f"row is in the block of its period, lower ({lab})", row, pmul(ix[0], per))
        x.ge(f"row is in the block of its period, upper ({lab})", pmul(ix[0] + 1, per) - 1, row)
        if row.isint() or not pl.opaque_in(row):
            x.holds(f"row is an integer ({lab})", row.isint())
        else:
            x.undecided(f"row is an integer ({lab})", "opaque row")


@ob("C12", text="the successor table returns the row of the next period's state; terminal states have none", anchor=[CCI, CAU])
def successors(x):
    s = space(x)
    T, CAM = leaf("T"), leaf("CAM")
    x.eq("one entry per state", s.csi.shape[0], s.st.shape[0])
    for lab, ix, v in combos():
        p, e, l, ty, ki, pa = ix
        row = s.ix.at(*ix)
        q = fresh_index(T - 1, "q")
        mp = {pl.single_atom(p).id: q}
        for c in range(3):
            for b in (0, 1):
                for np_ in (0, 1):
                    got = s.csi.at(subst(row, mp), C(c), C(b), C(np_))
                    if b:
                        refs = [("", ZERO, {})]
                    elif "none" in lab:
                        refs = [("", CAM + 1, {})]
                    else:
                        young = fresh_index(CAM, "y")
                        refs = [(", below maximum age", young + 1, {pl.single_atom(ki).id: young}), (", maximum age", CAM + 1, {pl.single_atom(ki).id: CAM})]
                    for nm, k2, m2 in refs:
                        ref = s.ix.at(q + 1, e, C(c), ty, k2, C(np_))
                        g = s.csi.at(subst(subst(row, mp), m2), C(c), C(b), C(np_))
                        x.eq(f"successor of ({lab}{nm}), choice {c}, birth {b}, partner {np_}", g, ref)
        last = s.csi.at(subst(row, {pl.single_atom(p).id: T - 1}), C(0), C(1), C(1))
        x.ge(f"no successor in the last period ({lab})", ZERO, last, strict=True)


@ob("C12", "C11", text="without a birth children age by one year and leave after the maximum age; childless stays childless", anchor=CAU)
def ageing(x):
    s = space(x)
    CAM = leaf("CAM")
    for lab, ix, v in combos():
        row = s.ix.at(*ix)
        if "none" in lab:
            x.eq(f"childless stays childless ({lab})", s.caur.at(row), C(-1))
        else:
            young = fresh_index(CAM, "y")
            a = pl.single_atom(ix[4]).id
            x.eq(f"one year older ({lab})", s.caur.at(subst(row, {a: young})), young + 1)
            x.eq(f"childless after the maximum age ({lab})", s.caur.at(subst(row, {a: CAM})), C(-1))


@ob("C19", text="child groups, equivalence scale, child benefit and partner wage of every state follow the stated classification", anchor=COV)
def covariates(x):
    s = space(x)
    q = {0: {0: F(1), 1: F(13, 10)}, 1: {0: F(3, 2), 1: F(9, 5)}}
    x.eq("one row per state", s.cov.shape[0], s.st.shape[0])
    for lab, ix, v in combos():
        row = s.ix.at(*ix)
        pa = int(v[5].const())
        mum = 0 if "none" in lab else 1
        x.eq(f"child group ({lab})", s.cov.at(row, ZERO), child_bin(v[4]))
        lw = leaf("pcf_const") + pmul(leaf("pcf_age"), v[0]) + pmul(leaf("pcf_age_sq"), pmul(v[0], v[0])) + pmul(leaf("pcf_educ"), v[1])
        x.eq(f"partner wage ({lab})", s.cov.at(row, ONE), pmul(C(38), exp(lw)) if pa else ZERO)
        if pa:
            x.ge(f"partner wage positive ({lab})", s.cov.at(row, ONE), ZERO, strict=True)
        x.eq(f"equivalence scale ({lab})", s.cov.at(row, C(2)), C(q[pa][mum]))
        x.eq(f"child benefit ({lab})", s.cov.at(row, C(3)), leaf("child_benefits") if mum else ZERO)
        g = s.cov.at(row, ZERO)
        if "nan" not in pl.leaf_names(g):
            x.holds(f"child group is never missing ({lab})", True)
        else:
            r = x.A.finite(g)
            x.add(f"child group is never missing ({lab})", r.status, **r.info)
