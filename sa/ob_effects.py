"""Reproducibility, exogeneity, ownership of inputs."""
from .build import *
from .model import *
from .effects import *
from .framework import ob
from .ob_tables import set_files, CH, EX, PA, ED
from .ob_spec import raw_spec, table, RS, RP
from .ob_chain import Chain, SIM
from . import poly as pl
from .lib import Sym
from .values import AbsRaise

PSIM = "soepy.simulate.simulate_auxiliary.pyth_simulate"
LOOP = "soepy.simulate.simulate_auxiliary.simulate_agents_over_periods"
INIT = "soepy.simulate.initial_states.prepare_simulation_data"
PS = "soepy.solve.solve_python.pyth_solve"
CS = "soepy.solve.create_state_space.create_state_space_objects"
INTEG = "soepy.shared.numerical_integration.get_integration_draws_and_weights"
RUNS = [(reg, sl, b, sp) for reg in REGIMES for sl in (True, False) for b, sp in ((False, False), (True, True))]


def is_live(g):
    return g is not ZERO


def loc(w):
    return f"{w[0]}:{w[1]} {w[2]}" if w else "?"


def seeded(x, lab, I, name, anchor, events=None):
    """all draws come from generators seeded with the one given leaf"""
    bad, und = [], []
    for d in I.draws.values():
        if not is_live(d["guard"]):
            continue
        if d["seedkind"] != "seed" or d["seed"] is None:
            bad.append(f"{loc(d['where'])}: {d['dist']} draw from an unseeded {d['gen']}")
            continue
        ls = {n for n in pl.leaf_names(d["seed"])}
        if name not in ls or any(n.startswith("entropy") or n.startswith("seed_") and n != name for n in ls):
            bad.append(f"{loc(d['where'])}: {d['dist']} draw from a generator seeded with {pl.show(d['seed'])}, not {name}")
    for e in I.rng_events:
        if e["kind"] == "unknown-source" and is_live(e["guard"]):
            und.append(f"{e['name']} at {loc(e['where'])}")
        if e["kind"] == "state-access":
            und.append(f"generator state used at {loc(e['where'])}")
        if e["kind"] == "seed" and e["seed"] is not None and any(n.startswith("entropy") for n in pl.leaf_names(e["seed"])):
            bad.append(f"{loc(e['where'])}: seed from an outside source")
    if bad:
        return x.holds(lab, False, anchor, why="; ".join(bad[:4]))
    if und:
        return x.undecided(lab, "; ".join(und[:4]), anchor)
    x.holds(lab, True, anchor, draws=len(I.draws))


def no_entropy(x, lab, ps, anchor):
    names = {n for p in ps for n in pl.leaf_names(p) if n.startswith("entropy")}
    x.holds(lab, not names, anchor, why=f"results depend on {sorted(names)}")


def sim_terms(si):
    return [si.rec(c) for c in si.df.cols] + [si.nxt(c) for c in si.new.cols] + [si.entrant(c).at(leaf("je")) for c in si.new.cols]


# ------------------------------------------------------------------ C01
@ob("C01", shards=4, text="every draw behind the simulated data comes from a generator seeded, in the same call, with the simulation seed; no other source of randomness reaches the data", anchor=[PSIM, INIT, LOOP])
def simulation_seed(x):
    for reg, sl, b, sp in x.share(RUNS):
        si = x.B.sim(reg, sl, b, sp)
        lab = f"{reg}, splitting={sl}, biased={b}, sparse={sp}"
        seeded(x, f"{lab}: seeds", si.I, "seed_sim", [PSIM, INIT, LOOP])
        no_entropy(x, f"{lab}: no outside source", sim_terms(si), LOOP)


@ob("C01", shards=2, text="Monte Carlo integration draws come from a generator seeded with the solution seed; quadrature draws nothing", anchor=[INTEG, PS])
def solution_seed(x):
    for reg in x.share(REGIMES):
        so = x.B.solve(reg, True, False, "monte_carlo")
        seeded(x, f"{reg}, Monte Carlo: seeds", so.I, "seed_emax", [INTEG, PS])
        no_entropy(x, f"{reg}, Monte Carlo: no outside source", [so.em(c) for c in range(4)], PS)
        so = x.B.solve(reg, True, False, "quadrature")
        x.holds(f"{reg}, quadrature: no draws", not so.I.draws, [INTEG, PS], why=f"{len(so.I.draws)} random draws under quadrature")
        no_entropy(x, f"{reg}, quadrature: no outside source", [so.em(c) for c in range(4)], PS)


def interps(x):
    """(what, interpreter) for all parts of the package"""
    I = x.B.fresh()
    run(I, I.get(RS), [raw_spec(), table(3)])
    run(I, I.get(RP), [table(3)])
    yield "reading specification and parameters", I, [RS, RP]
    from .ob_tables import tables
    yield "probability tables", tables(x)[0], [CH + "gen_prob_child_vector", PA + "gen_prob_partner"]
    from .ob_states import space
    yield "state space", space(x).I, [CS]
    for reg in REGIMES:
        for m in ("quadrature", "monte_carlo"):
            yield f"solution, {reg}, {m}", x.B.solve(reg, True, False, m).I, [PS]
        yield f"simulation, {reg}", x.B.sim(reg).I, [PSIM, LOOP]
    ch = Chain(x)
    run(ch.I, ch.I.get(SIM + "simulate"), [Sym("params_a"), Sym("spec_a")])
    yield "simulating in one call", ch.I, [SIM + "simulate", SIM + "get_simulate_func"]
    ch = Chain(x)
    f = run(ch.I, ch.I.get(SIM + "get_simulate_func"), [Sym("params_a"), Sym("spec_a")])
    for n in ("params_1", "params_2"):
        run(ch.I, f, [Sym(n), Sym("spec_a")])
    yield "built simulation function", ch.I, [SIM + "get_simulate_func"]


FILES = {"child_info", "child_age_shares", "educ_shares", "pt_exp_shares", "ft_exp_shares", "partner_separation", "partner_arrival", "partner_shares"}


@ob("C01", text="nothing is remembered between calls: no module-level, default-argument or function-attribute state is written and no cached result is modified; only the given files are read", anchor=[PSIM, PS, RS, SIM + "simulate"])
def no_memory(x):
    for what, I, anchor in interps(x):
        kept = [e for e in I.events if e.kind == "mutate" and is_live(e.guard) and e.info["origin"].split(":")[0] in ("global", "function", "module", "memo", "class", "default")]
        stale = [e for e in I.events if e.kind == "memo"]
        if not kept and not stale:
            x.holds(f"{what}: no state survives the call", True, anchor)
        else:
            desc = "; ".join([f"{loc(e.where)} writes {e.info['origin']} ({e.info['what']})" for e in kept[:3]] + [f"{e.info['func']} keeps results" for e in stale[:3]])
            r = history(x, what)
            if r is None:
                x.undecided(f"{what}: no state survives the call", desc, anchor)
            else:
                x.holds(f"{what}: state that survives the call changes no result", not r, anchor, why=f"{desc}; after an earlier call: {r}")
        files = [e for e in I.events if e.kind == "file-read" and is_live(e.guard)]
        odd = [e for e in files if str(getattr(e.info["name"], "name", e.info["name"])) not in FILES | {"params.pkl", "spec.yml"}]
        x.holds(f"{what}: only the given files are read", not odd, anchor, why="; ".join(f"{loc(e.where)} reads {e.info['name']}" for e in odd[:3]))


def history(x, what):
    """description of a result that differs after an earlier call with other inputs, '' if none, None if undecided"""
    from .history import differs
    return differs(x, what)


# ------------------------------------------------------------------ C03
def untouched(x, lab, I, snap, anchor):
    ev = [e for e in I.events if e.kind == "mutate" and is_live(e.guard) and e.info["origin"].startswith("arg:")]
    ch = changes(x.A, snap)
    hard = [p for p, d in ch if d]
    soft = [p for p, d in ch if d is None]
    desc = "; ".join(f"{loc(e.where)} modifies {e.info['origin'][4:]} ({e.info['what']})" for e in ev[:4])
    if hard or (soft and ev):
        x.holds(lab, False, anchor, why=desc or f"{(hard + soft)[:4]} modified")
    elif soft:
        x.undecided(lab, f"cannot compare {soft[:4]}", anchor)
    elif ev and not ch:
        x.holds(lab, True, anchor, note="written with the same content: " + desc)
    else:
        x.holds(lab, True, anchor, parts=len(snap))


@ob("C03", text="reading leaves the specification dictionary, its nested parts and the parameter table as they were", anchor=[RS, RP])
def reading_keeps(x):
    for kw in (dict(), dict(scale=False), dict(regime="erziehungsgeld", splitting=False, method="monte_carlo")):
        for n in (1, 3):
            I = x.B.fresh()
            d, t = own(raw_spec(**kw), "arg:model_spec_init_dict"), own(table(n), "arg:model_params_init_file_name")
            snap = snapshot(d, "specification") + snapshot(t, "parameter table")
            r = run(I, I.get(RP), [t])
            run(I, I.get(RS), [d, t])
            untouched(x, f"{n} types, {kw}", I, snap, [RS, RP])
            # the returned specification shares no mutable part with the caller's dictionary that later stages write to
    I = x.B.fresh()
    d = own(raw_spec(), "arg:model_spec_init_dict")
    snap = snapshot(d, "specification")
    try:
        run(I, I.get(RS), [own(raw_spec(care=("under_3",)), "arg:model_spec_init_dict"), table(3)])
    except AbsRaise:
        pass
    untouched(x, "rejected specification", I, snap, [RS])


@ob("C03", shards=2, text="the solution leaves state arrays, successor table, probabilities, parameters and specification as they were", anchor=[PS, "soepy.solve.solve_python.get_solve_function"])
def solving_keeps(x):
    for reg, sl, m in x.share([(r, s, m) for r in REGIMES for s, m in ((True, "quadrature"), (False, "monte_carlo"))]):
        I = x.B.fresh()
        kw = dict(states=states_arr(), covariates=cov_arr(), child_state_indexes=csi_arr(), model_params=params(), model_spec=spec(I, reg, sl, m), prob_child=prob_child_arr(),
                  prob_partner=prob_partner_arr(), biased_exp=False)
        for n, v in kw.items():
            own(v, "arg:" + n)
        snap = [s for n, v in kw.items() for s in snapshot(v, n)]
        run(I, I.get(PS), [], kw)
        untouched(x, f"{reg}, splitting={sl}, {m}", I, snap, [PS])


@ob("C03", shards=4, text="the simulation leaves states, index table, solved values, probabilities, parameters and specification as they were", anchor=[PSIM, LOOP, INIT])
def simulating_keeps(x):
    for reg, sl, b, sp in x.share(RUNS):
        I = x.B.fresh()
        em = Arr((leaf("T") * leaf("S"), leaf("G"), C(4)), lambda r, g, c: leaf("em", r, g, c), "float", "np")
        nc = Arr((leaf("T") * leaf("S"), C(3)), lambda r, c: leaf("ncu", r, c), "float", "np")
        kw = dict(model_params=params(), model_spec=spec(I, reg, sl), states=states_arr(), indexer=indexer_arr(), emaxs=em, covariates=cov_arr(), non_consumption_utilities=nc,
                  child_age_update_rule=caur_arr(), prob_educ_level=nlist("pe", 3, "float", "list"), prob_child_age=prob_rows("pca", leaf("child_age_init_max") + 2),
                  prob_partner_present=nlist("ppp", 3), prob_exp_pt=prob_rows("ppt", leaf("init_exp_max") + 1), prob_exp_ft=prob_rows("pft", leaf("init_exp_max") + 1),
                  prob_child=prob_child_arr(), prob_partner=prob_partner_arr(), biased_exp=b, data_sparse=sp)
        for n, v in kw.items():
            own(v, "arg:" + n)
        snap = [s for n, v in kw.items() for s in snapshot(v, n)]
        run(I, I.get(PSIM), [], kw)
        untouched(x, f"{reg}, splitting={sl}, biased={b}, sparse={sp}", I, snap, [PSIM, LOOP, INIT])


@ob("C03", text="state space, tables and integration nodes leave their inputs as they were", anchor=[CS, CH + "gen_prob_child_vector"])
def parts_keep(x):
    I = x.B.fresh()
    set_files(I)
    sp = spec(I)
    own(sp, "arg:model_spec")
    snap = snapshot(sp, "model_spec")
    for f, extra in ((CS, ()), (CH + "gen_prob_child_vector", ()), (CH + "gen_prob_child_init_age_vector", ()), (PA + "gen_prob_partner", ()), (PA + "gen_prob_partner_present_vector", ()),
                     (ED + "gen_prob_educ_level_vector", ()), (EX + "gen_prob_init_exp_component_vector", (sp.fields["pt_exp_shares_file_name"],)), (INTEG, ())):
        run(I, I.get(f), [sp, *extra])
    untouched(x, "state space, tables, integration", I, snap, [CS])


# ------------------------------------------------------------------ C02
def endogenous(si):
    pre = {si.prefix, si.base}
    bad = {f"{p}.{c}" for p in pre for c in si.new.cols if c not in EXO}
    return lambda n: n in BEHAVIOUR or n in bad


def exo_terms(si):
    je = leaf("je")
    for c in EXO:
        yield f"next {c}", si.nxt(c), ()
        yield f"recorded {c}", si.rec(c), ()
        yield f"{c} at entry", si.entrant(c).at(je), ()
    for c in ("Experience_Part_Time", "Experience_Full_Time"):
        yield f"{c} at entry", si.entrant(c).at(je), ()
    yield "number of agents present", C(si.item.n), ()
    yield "number of entrants", C(si.cat.parts[1][0].n), ()


@ob("C02", shards=4, text="education, type, entry conditions, births, child ages and partners depend on no preference, wage, tax or transfer parameter, no solved value and no choice", anchor=[LOOP, INIT])
def exogenous_columns(x):
    for reg, sl, b, sp in x.share(RUNS):
        si = x.B.sim(reg, sl, b, sp)
        lab = f"{reg}, splitting={sl}, biased={b}, sparse={sp}"
        bad = endogenous(si)
        seen = set()
        for what, p, need in exo_terms(si):
            report(x, f"{lab}: {what}", p, bad)
            seen |= {n for n in pl.leaf_names(p) if n in si.I.draws}
        w, z = sim_wage(si)
        seen.add(z.args[0])
        draws(x, lab, si.I, seen, bad)


def report(x, label, p, bad, anchor=None):
    yes, maybe = depends(x.A, p, bad)
    if yes:
        x.holds(label, False, anchor or [LOOP, INIT], why="depends on " + ", ".join(n for n, _ in yes), **{"witness": yes[0][1]})
    elif maybe:
        x.undecided(label, f"mentions {maybe}", anchor)
    else:
        x.holds(label, True, anchor, leaves=len(pl.leaf_names(C(p))))


def draws(x, lab, I, names, bad):
    """draws behind exogenous histories, and every draw that shares a generator with them (it moves the stream), are free of behaviour"""
    todo, done = list(names), set()
    while todo:
        n = todo.pop()
        if n in done or n not in I.draws:
            continue
        done.add(n)
        d = I.draws[n]
        for nm, v in d["params"].items():
            if isinstance(v, Arr):
                p = v.at(*[fresh_index(s, "q") for s in v.shape])
            elif isinstance(v, P):
                p = v
            else:
                continue
            if d["dist"] == "normal" and nm in ("loc", "scale"):
                continue
            report(x, f"{lab}: {nm} of the {d['dist']} draw at {loc(d['where'])}", p, bad, [LOOP, INIT])
            todo += [m for m in pl.leaf_names(p) if m in I.draws]
    gens = {I.draws[n]["gen"] for n in done}
    for n, d in I.draws.items():
        if d["gen"] not in gens or not is_live(d["guard"]):
            continue
        at = f"the {d['dist']} draw at {loc(d['where'])}"
        for s in d["shape"]:
            report(x, f"{lab}: size of {at}", C(s), bad, [LOOP, INIT])
        report(x, f"{lab}: condition of {at}", C(d["guard"]), bad, [LOOP, INIT])
        if d["dist"] == "binomial":
            p = d["params"]["p"]
            report(x, f"{lab}: stream used by {at}", p.at(*[fresh_index(s, "q") for s in p.shape]), bad, [LOOP, INIT])
    for e in I.rng_events:
        if e["kind"] == "seed" and e["seed"] is not None:
            report(x, f"{lab}: seed set at {loc(e['where'])}", e["seed"], bad, [LOOP, INIT])
            report(x, f"{lab}: condition of the seed set at {loc(e['where'])}", C(e["guard"]), bad, [LOOP, INIT])


@ob("C02", text="each row's wage shock is one standard-normal draw addressed by period and position among the agents, positions depend on entry only", anchor=[LOOP, INIT])
def shocks(x):
    for reg, sl, b, sp in RUNS:
        si = x.B.sim(reg, sl, b, sp)
        lab = f"{reg}, splitting={sl}, biased={b}, sparse={sp}"
        w, z = sim_wage(si)
        bad = endogenous(si)
        d = si.I.draws[z.args[0]]
        x.holds(f"{lab}: standard normal", d["dist"] == "normal", INIT, why=f"shock drawn from {d['dist']}")
        x.holds(f"{lab}: drawn before any behaviour", not d["loops"] or all(pl.single_atom(C(q)) is not pl.single_atom(C(si.k)) for q in d["loops"]) or not d["params"]["scale"].shape, INIT)
        for q in z.args[1:]:
            report(x, f"{lab}: position of the shock", C(q), bad)
        for c in ("Wage_Observed",):
            ws = at_choice(si, si.rec(c), 1), at_choice(si, si.rec(c), 2)
            for v in ws:
                zs = normal_leaf(si, v)
                x.holds(f"{lab}: the same shock whatever the choice", zs is z, LOOP, why="the shock of a part-time worker differs from that of a full-time worker")
