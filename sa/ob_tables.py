"""Probability tables read from files."""
from .build import *
from .framework import ob
from . import poly as pl

CH = "soepy.exogenous_processes.children."
EX = "soepy.exogenous_processes.experience."
PA = "soepy.exogenous_processes.partner."
ED = "soepy.exogenous_processes.education."
T, E = leaf("T"), C(3)

for _n in ("f_child", "f_arr", "f_sep", "f_ppp", "f_educ", "f_cas", "f_pt", "f_ft"):
    declare(_n, lb=F(0), ub=F(1))
declare("TF", isint=True, lb=F(1))          # periods in the files beyond the horizon


def period_table(name, col):
    """one probability per (period, education), period-major, for at least as many periods as the horizon"""
    P_ = T + leaf("TF") - 1
    n = pmul(P_, E)
    idx = {"period": Arr((n,), lambda r: divmod_p(r, E)[0], "int", "np"), "educ_level": Arr((n,), lambda r: divmod_p(r, E)[1], "int", "np")}
    return DF({col: Arr((n,), lambda r: leaf(name, divmod_p(r, E)[0], divmod_p(r, E)[1]), "float", "np")}, n, index=idx)


def share_table(name, col, m, second, lo=ZERO):
    n = pmul(E, m)
    idx = {"educ_level": Arr((n,), lambda r: divmod_p(r, m)[0], "int", "np"), second: Arr((n,), lambda r: divmod_p(r, m)[1] + lo, "int", "np")}
    return DF({col: Arr((n,), lambda r: leaf(name, divmod_p(r, m)[0], divmod_p(r, m)[1]), "float", "np")}, n, index=idx)


def educ_table(name, col):
    return DF({col: Arr((E,), lambda r: leaf(name, r), "float", "np")}, E, index={"educ_level": Arr((E,), lambda r: r, "int", "np")})


def set_files(I):
    I.files.update({
        "child_info": lambda: period_table("f_child", "prob_child_values"),
        "partner_arrival": lambda: period_table("f_arr", "prob_partner_values"),
        "partner_separation": lambda: period_table("f_sep", "prob_partner_values"),
        "partner_shares": lambda: educ_table("f_ppp", "partner_shares"),
        "educ_shares": lambda: educ_table("f_educ", "educ_shares"),
        "child_age_shares": lambda: share_table("f_cas", "child_age_shares", leaf("child_age_init_max") + 2, "child_age", C(-1)),
        "pt_exp_shares": lambda: share_table("f_pt", "exper_shares", leaf("init_exp_max") + 1, "pt_exp"),
        "ft_exp_shares": lambda: share_table("f_ft", "exper_shares", leaf("init_exp_max") + 1, "ft_exp"),
    })


def tables(x):
    def f():
        I = x.B.fresh()
        set_files(I)
        sp = spec(I)
        c = lambda nm, *a: run(I, I.get(nm), [sp, *a])
        fl = sp.fields
        return I, dict(child=c(CH + "gen_prob_child_vector"), age=c(CH + "gen_prob_child_init_age_vector"), partner=c(PA + "gen_prob_partner"),
                       present=c(PA + "gen_prob_partner_present_vector"), educ=c(ED + "gen_prob_educ_level_vector"),
                       pt=c(EX + "gen_prob_init_exp_component_vector", fl["pt_exp_shares_file_name"]),
                       ft=c(EX + "gen_prob_init_exp_component_vector", fl["ft_exp_shares_file_name"]))
    return x.B.get("tables", f)


@ob("C21", text="birth probabilities are the input's up to and including the last child-bearing period and zero afterwards", anchor=CH + "gen_prob_child_vector")
def birth_table(x):
    I, tb = tables(x)
    a = L.to_arr(I, tb["child"])
    t = fresh_index(T, "t")
    x.eq("periods", a.shape[0], T)
    x.eq("education levels", a.shape[1], E)
    gate = ge(leaf("lcb") - t)
    for e in range(3):
        x.eq(f"probability, education {e}", a.at(t, C(e)), pmul(gate, leaf("f_child", t, C(e))))


@ob("C21", text="partner transition probabilities from each status sum to one; arrival and separation come from their own inputs for the same period and education", anchor=PA + "gen_prob_partner")
def partner_table(x):
    I, tb = tables(x)
    a = L.to_arr(I, tb["partner"])
    t = fresh_index(T, "t")
    for d, n in enumerate((T, E, C(2), C(2))):
        x.eq(f"axis {d}", a.shape[d], n)
    for e in range(3):
        ref = {(0, 1): leaf("f_arr", t, C(e)), (1, 0): leaf("f_sep", t, C(e))}
        ref[0, 0], ref[1, 1] = ONE - ref[0, 1], ONE - ref[1, 0]
        for (i, j), p in sorted(ref.items()):
            x.eq(f"education {e}, from {i} to {j}", a.at(t, C(e), C(i), C(j)), p)


@ob("C21", text="entry shares: the first category takes the remaining mass, the others are the inputs", anchor=[CH + "gen_prob_child_init_age_vector", EX + "gen_prob_init_exp_component_vector"])
def entry_tables(x):
    I, tb = tables(x)
    for key, nm, m, anchor in (("age", "f_cas", leaf("child_age_init_max") + 2, CH + "gen_prob_child_init_age_vector"), ("pt", "f_pt", leaf("init_exp_max") + 1, EX + "gen_prob_init_exp_component_vector"),
                               ("ft", "f_ft", leaf("init_exp_max") + 1, EX + "gen_prob_init_exp_component_vector")):
        rows = tb[key]
        x.eq(f"{key}: one row per education level", L.to_arr(I, PRIM_len(I, rows)).at(), E, anchor)
        for e in range(3):
            row = L.to_arr(I, I.getitem(rows, scalar(C(e))))
            i = fresh_index(m - 1, "i")
            x.eq(f"{key}: number of categories, education {e}", row.shape[0], m, anchor)
            x.eq(f"{key}: later categories are the inputs, education {e}", row.at(i + 1), leaf(nm, C(e), i + 1), anchor, where=[m - 1])
            rest = sumd(lambda k: leaf(nm, C(e), k + 1), m - 1)
            x.eq(f"{key}: the first category takes the remaining mass, education {e}", row.at(ZERO), ONE - rest, anchor)
            x.eq(f"{key}: shares sum to one, education {e}", sumd(lambda k: row.at(k), m), ONE, anchor)


@ob("C21", text="education and partner shares are the inputs of the same education level", anchor=[ED + "gen_prob_educ_level_vector", PA + "gen_prob_partner_present_vector"])
def plain_tables(x):
    I, tb = tables(x)
    for key, nm in (("educ", "f_educ"), ("present", "f_ppp")):
        a = L.to_arr(I, tb[key])
        x.eq(f"{key}: one share per education level", a.shape[0], E)
        for e in range(3):
            x.eq(f"{key}: education {e}", a.at(C(e)), leaf(nm, C(e)))


def PRIM_len(I, v):
    from .lib import PRIMS
    return PRIMS["len"](I, v)
