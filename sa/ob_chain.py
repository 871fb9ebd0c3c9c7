"""The public ways to simulate: which values reach which argument."""
import copy
from .build import *
from .framework import ob
from .ob_tables import set_files
from . import poly as pl
from .prove import Arbiter
from .values import AbsRaise

SIM = "soepy.simulate.simulate_python."
RP, RS = "soepy.pre_processing.model_processing.read_model_params_init", "soepy.pre_processing.model_processing.read_model_spec_init"
GS = "soepy.solve.solve_python.get_solve_function"
PSIM = "soepy.simulate.simulate_auxiliary.pyth_simulate"


class Chain:
    """one scripted use of the public functions with reading, solving and simulating replaced by recorders"""

    def __init__(self, x):
        I = self.I = x.I_ = x.B.fresh()
        set_files(I)
        self.read, self.built, self.solved, self.sims = [], [], [], []
        self.par = {}
        I.stubs.update({RP: self.rp, RS: self.rs, GS: self.gs, PSIM: self.ps})
        I.files["params"] = None

    def rp(self, I, f, args, kw):
        b = list(I.bind(f, args, kw).values())[0]
        nm = b.name if isinstance(b, Sym) else None
        if nm is None:
            raise Unsupported("parameters read from an unexpected object")
        if nm not in self.par:
            self.par[nm] = named_params(nm)
        return (Sym("table of " + nm), self.par[nm])

    def rs(self, I, f, args, kw):
        b = list(I.bind(f, args, kw).values())
        nm = b[0].name if isinstance(b[0], Sym) else "?"
        self.read.append((nm, b[1]))
        if "~" in nm:
            # a specification that differs in its seed and sample size
            return spec(I, seed_sim=scalar(renamed("seed_sim", nm)), num_agents_sim=scalar(renamed("A", nm)))
        return spec(I)

    def gs(self, I, f, args, kw):
        b = I.bind(f, args, kw)
        rec = dict(args=b, loc=I.where())
        self.built.append(rec)

        def solver(I, args, kw):
            p = (list(args) + list(kw.values()))[0]
            nth = f"solution {len(self.solved)}"
            em = Arr((leaf("T") * leaf("S"), leaf("G"), C(4)), lambda r, g, c: renamed("em", nth, r, g, c), "float", "jax")
            nc = Arr((leaf("T") * leaf("S"), C(3)), lambda r, c: renamed("ncu", nth, r, c), "float", "jax")
            self.solved.append((rec, p, em, nc, I.where()))
            return (nc, em)
        return PyFn("solve function", solver, captured=list(b.values()))

    def ps(self, I, f, args, kw):
        b = I.bind(f, args, kw)
        self.sims.append((b, I.where()))
        n = leaf("NF")
        col = lambda nm, dt="int": Arr((n,), lambda j: leaf("simcol_" + nm, j), dt, "np")
        return DF({k: col(k) for k in ("Identifier", "Period", "Choice")}, n)


declare("NF", isint=True, lb=F(0))


def renamed(name, tag, *args):
    """the leaf of that name belonging to something else of the same kind"""
    nm = f"{name}@{tag}"
    if nm not in pl.DECL:
        d = pl.DECL[nm] = copy.copy(pl.DECL[name])
        d.name, d.tag = nm, nm
    return leaf(nm, *args)


def named_params(nm):
    """parameters read from file nm; "f~k" is the file f with another value of k"""
    base, _, field = nm.partition("~")
    q = params()
    out = {}
    for k, v in q.fields.items():
        tag = nm if k == field else base

        def ren(p, tag=tag):
            return pl.subst_fn(p, lambda A: renamed(A.args[0], tag, *A.args[1:]) if A.kind == "leaf" and A.args[0] not in ("NT", "nan") else None)
        f = v.fn()
        out[k] = Arr(v.shape, lambda *i, f=f, ren=ren: ren(f(*i)), v.dt, v.lib)
    return NT("model_parameters", out)
TABLES = {"prob_educ_level": ("f_educ", "educ_shares"), "prob_child_age": ("f_cas", "child age shares"), "prob_partner_present": ("f_ppp", "partner shares"),
          "prob_exp_pt": ("f_pt", "part-time experience shares"), "prob_exp_ft": ("f_ft", "full-time experience shares"), "prob_child": ("f_child", "birth probabilities"),
          "prob_partner": ("f_arr", "partner transitions")}


def files_behind(I, v):
    a = L.to_arr(I, v)
    p = a.at(*[fresh_index(n, "i") for n in a.shape])
    return {n for n in pl.leaf_names(p) if n.startswith("f_")}


def last_value(r):
    """value returned by an analysed call"""
    return r


def same(I, a, b):
    """the same value graph: None if not decided"""
    if a is b:
        return True
    if isinstance(a, NT) and isinstance(b, NT):
        return list(a.fields) == list(b.fields) and all(same(I, a.fields[k], b.fields[k]) is True for k in a.fields)
    if isinstance(a, (str, Sym)) or isinstance(b, (str, Sym)):
        return getattr(a, "name", a) == getattr(b, "name", b)
    try:
        p, q = L.to_arr(I, a), L.to_arr(I, b)
    except Exception:
        return None
    if len(p.shape) != len(q.shape):
        return False
    ii = [fresh_index(n, "s") for n in p.shape]
    r = Arbiter().equal(p.at(*ii), q.at(*ii)).status
    return {"refuted": False, "undecided": None}.get(r, True)


def which(ch, p):
    """name of the parameter file a parameter tuple was read from"""
    if not isinstance(p, NT):
        return None
    for nm, q in ch.par.items():
        if p is q or set(p.fields) >= set(q.fields) and all(identical(ch.I, p.fields[k], q.fields[k]) for k in q.fields):
            return nm
    mixed = {n.split("@")[1] for k in p.fields for n in names_in(ch.I, p.fields[k]) if "@" in n}
    return f"a mixture of {sorted(mixed)}" if mixed else None


def identical(I, a, b):
    a, b = L.to_arr(I, a), L.to_arr(I, b)
    if len(a.shape) != len(b.shape):
        return False
    ii = [fresh_index(n, "s") for n in b.shape]
    return not (a.at(*ii) - b.at(*ii)).t


def names_in(I, v):
    try:
        a = L.to_arr(I, v)
        return pl.leaf_names(a.at(*[fresh_index(n, "s") for n in a.shape]))
    except (Unsupported, AbsRaise):
        return set()


def alike(x, label, pairs, anchor, why):
    rs = [same(x.I_, a, b) for a, b in pairs]
    if any(r is False for r in rs):
        x.holds(label, False, anchor, why=why)
    elif any(r is None for r in rs):
        x.undecided(label, "values not comparable", anchor)
    else:
        x.holds(label, True, anchor)


def own(x, label, ch, p, want, anchor, loc):
    """parameters are those read from want"""
    w = which(ch, p)
    if w is None:
        x.undecided(label, "parameters of unknown origin", anchor)
    else:
        x.holds(label, w == want, anchor, why=f"{loc}: uses parameters of {w}, not of {want}")


def flag(v):
    if isinstance(v, bool):
        return v
    try:
        a = L.to_arr(None, v) if isinstance(v, Arr) else None
        if a is not None and not a.shape and a.p().is_const():
            return bool(a.p().const())
    except Exception:
        pass
    return None


def solution_of(ch, b):
    """the recorded solution whose values reach the simulation (the last one if it is not clear)"""
    tags = {n.split("@")[1] for n in names_in(ch.I, b["emaxs"]) if n.startswith("em@")}
    if len(tags) == 1:
        return ch.solved[int(tags.pop().split()[-1])]
    return ch.solved[-1] if ch.solved else None


def check_run(x, lab, ch, k, want, biased, sparse, anchor, solve=True, specname=None):
    """the k-th solve+simulate of the chain"""
    if len(ch.sims) <= k:
        return x.undecided(f"{lab}: calls", f"{len(ch.solved)} solutions and {len(ch.sims)} simulations recorded")
    b, loc = ch.sims[k]
    if solve:
        used = solution_of(ch, b)
        if used is None:
            return x.undecided(f"{lab}: calls", "the simulation's values come from no recorded solution")
        rec, p, em, nc, loc2 = used
        own(x, f"{lab}: the solution uses the parameters of the call", ch, p, want, anchor, loc2)
        bb = flag(rec["args"].get("biased_exp"))
        if bb is None:
            x.undecided(f"{lab}: expectations of the solution", "flag not constant", anchor)
        else:
            x.holds(f"{lab}: the solution gets the chosen expectations", bb is biased, anchor, why=f"{rec['loc']}: biased_exp={bb} for a call with biased_exp={biased}")
        alike(x, f"{lab}: the simulation gets this solution's values", [(b["emaxs"], em), (b["non_consumption_utilities"], nc)], anchor, why=f"{loc}: emaxs / non-pecuniary factors are not those just solved")
        for nm in ("prob_child", "prob_partner", "states", "covariates"):
            if nm in rec["args"] and nm in b:
                alike(x, f"{lab}: solution and simulation share {nm}", [(rec["args"][nm], b[nm])], anchor, why=f"{loc}: {nm} differs between solution and simulation")
    own(x, f"{lab}: the simulation uses the parameters of the call", ch, b["model_params"], want, anchor, loc)
    if specname:
        sp = b.get("model_spec")
        for fld, nm in (("seed_sim", "seed_sim"), ("num_agents_sim", "A")):
            got = sp.fields.get(fld) if isinstance(sp, NT) else None
            ref = renamed(nm, specname) if "~" in specname else leaf(nm)
            if got is None:
                x.undecided(f"{lab}: {fld}", "specification not found", anchor)
            else:
                alike(x, f"{lab}: {fld} is that of the specification given to the call", [(got, scalar(ref))], anchor, why=f"{loc}: {fld} is not that of {specname}")
    bs = flag(b.get("biased_exp"))
    if bs is None:
        x.undecided(f"{lab}: law in the simulation", "flag not constant", anchor)
    else:
        x.holds(f"{lab}: realised experience follows the true increment", bs is False, anchor, why=f"{loc}: simulates with biased_exp={bs}")
    sp = flag(b.get("data_sparse"))
    if sp is None:
        x.undecided(f"{lab}: output size", "flag not constant", anchor)
    else:
        x.holds(f"{lab}: output size as chosen", sp is sparse, anchor, why=f"{loc}: data_sparse={sp} for a call with data_sparse={sparse}")


def args_of(x, lab, ch, k, anchor):
    b, loc = ch.sims[k]
    I = ch.I
    for nm, (fl, what) in TABLES.items():
        got = files_behind(I, b[nm])
        ref = {"f_arr", "f_sep"} if nm == "prob_partner" else {fl}
        x.holds(f"{lab}: {nm} is made from the {what}", got == ref, anchor, why=f"{loc}: {nm} is made from {sorted(got)}")
    sp = spec(I)
    r = run(I, I.get("soepy.solve.create_state_space.create_state_space_objects"), [sp])
    items = r if isinstance(r, tuple) else I.iterate(r)[1]
    for nm, ref in zip(("states", "indexer", "covariates", "child_age_update_rule"), items):
        alike(x, f"{lab}: {nm} is the state space's", [(b[nm], ref)], anchor, why=f"{loc}: {nm} is not the state-space object of that name")
    if ch.built:
        a = ch.built[-1]["args"]
        for nm, ref in (("states", items[0]), ("covariates", items[2]), ("child_state_indexes", items[4])):
            if nm in a:
                alike(x, f"{lab}: {nm} of the solution is the state space's", [(a[nm], ref)], anchor, why=f"{ch.built[-1]['loc']}: {nm} is not the state-space object of that name")
        for nm in ("prob_child", "prob_partner"):
            if nm in a:
                got = files_behind(I, a[nm])
                ref = {"f_arr", "f_sep"} if nm == "prob_partner" else {"f_child"}
                x.holds(f"{lab}: {nm} of the solution is made from its own input", got == ref, anchor, why=f"{nm} is made from {sorted(got)}")


def indexed(x, lab, r, anchor):
    if not isinstance(r, DF):
        return x.undecided(f"{lab}: result", "not a frame")
    x.holds(f"{lab}: the panel is indexed by identifier and period", list(r.index or {}) == ["Identifier", "Period"]
            and all(pl.leaf_names(a.at(fresh_index(r.n, "j"))) & {"simcol_" + n} for n, a in r.index.items()), anchor, why=f"index {list(r.index or {})}")
    x.holds(f"{lab}: no column is lost", "Choice" in r.cols, anchor, why="columns dropped")


@ob("C23", "C10", text="simulating in one call passes parameters, expectations, output size and tables on unchanged; realised laws use the true increment", anchor=SIM + "simulate")
def one_call(x):
    for biased in (None, True, False):
        for sparse in (None, True, False):
            ch = Chain(x)
            kw = {k: v for k, v in (("biased_exp", biased), ("data_sparse", sparse)) if v is not None}
            r = run(ch.I, ch.I.get(SIM + "simulate"), [Sym("params_a"), Sym("spec_a")], kw)
            lab = f"biased_exp={biased}, data_sparse={sparse}".replace("None", "default")
            check_run(x, lab, ch, 0, "params_a", biased is not False, sparse is True, SIM + "simulate", specname="spec_a")
            if biased is None and sparse is None and ch.sims:
                args_of(x, lab, ch, 0, SIM + "simulate")
                indexed(x, lab, r, SIM + "simulate")
                x.holds(f"{lab}: one simulation", len(ch.sims) == 1, SIM + "simulate", why=f"{len(ch.sims)} simulations")


@ob("C23", "C10", text="a built simulation function uses the parameters of each call and is the same computation as simulating in one call", anchor=SIM + "get_simulate_func")
def built_function(x):
    A = SIM + "get_simulate_func"
    for biased in (None, True, False):
        for sparse in (None, True, False):
            ch = Chain(x)
            kw = {k: v for k, v in (("biased_exp", biased), ("data_sparse", sparse)) if v is not None}
            f = run(ch.I, ch.I.get(A), [Sym("params_built"), Sym("spec_a")], kw)
            lab = f"biased_exp={biased}, data_sparse={sparse}".replace("None", "default")
            for k, nm in enumerate(("params_1", "params_2", "params_1")):
                r = run(ch.I, f, [Sym(nm), Sym("spec_a")])
                check_run(x, f"{lab}, call {k + 1}", ch, k, nm, biased is not False, sparse is True, A, specname="spec_a")
            if biased is None and sparse is None:
                # parameters that differ from an earlier call in one entry only, and another specification
                k = len(ch.sims)
                for fld in ch.par["params_1"].fields:
                    run(ch.I, f, [Sym(f"params_1~{fld}"), Sym("spec_a")])
                    check_run(x, f"{lab}, only {fld} differs from an earlier call", ch, k, f"params_1~{fld}", True, False, A)
                    k += 1
                run(ch.I, f, [Sym("params_1"), Sym("spec_a~b")])
                check_run(x, f"{lab}, another seed and sample size", ch, k, "params_1", True, False, A, specname="spec_a~b")
            if biased is None and sparse is None and ch.sims:
                args_of(x, lab, ch, 0, A)
                indexed(x, lab, r, A)
                one = Chain(x)
                run(one.I, one.I.get(SIM + "simulate"), [Sym("params_1"), Sym("spec_a")])
                if one.sims:
                    for nm in ch.sims[0][0]:
                        u, v = ch.sims[0][0][nm], one.sims[0][0].get(nm)
                        if nm in ("model_params", "model_spec"):
                            continue
                        alike(x, f"same {nm} as in one call", [(u, v)], A, why=f"{nm} differs from simulating in one call")


@ob("C23", "C10", text="the prepared simulation with a given solution function passes every object to its place and uses the true increment", anchor=SIM + "partiable_simulate")
def partial_call(x):
    A = SIM + "partiable_simulate"
    for sparse in (True, False):
        ch = Chain(x)
        I = ch.I
        f = I.get(A)
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        sol = ch.gs(I, I.get(GS), [], {k: k for k in [a.arg for a in I.get(GS).node.args.args]})
        kw = {n: Sym(n) for n in names}
        kw.update(solve_func=sol, data_sparse=sparse)
        if "model_params_init_file_name" not in kw:
            return x.undecided("arguments", "unexpected signature")
        kw["model_params_init_file_name"], kw["model_spec_init_file_name"] = Sym("params_a"), Sym("spec_a")
        run(I, f, [], kw)
        ch.built[0]["args"] = {}
        if not ch.sims:
            return x.undecided("calls", "no simulation recorded")
        b, loc = ch.sims[0]
        check_run(x, f"data_sparse={sparse}", ch, 0, "params_a", None, sparse, A, solve=False)
        for nm in ("states", "indexer", "covariates", "child_age_update_rule", "prob_educ_level", "prob_child_age", "prob_partner_present", "prob_exp_pt", "prob_exp_ft", "prob_child", "prob_partner"):
            x.holds(f"data_sparse={sparse}: {nm} reaches {nm}", isinstance(b.get(nm), Sym) and b[nm].name == nm, A, why=f"{loc}: {nm} receives {getattr(b.get(nm), 'name', '?')}")
        x.holds(f"data_sparse={sparse}: solved values reach their place", bool(ch.solved) and same(I, b["emaxs"], ch.solved[0][2]) is not False and same(I, b["non_consumption_utilities"], ch.solved[0][3]) is not False
                and which(ch, ch.solved[0][1]) == "params_a", A, why=f"{loc}: solved values or parameters of the solution misplaced")


from .lib import Sym  # noqa: E402
