"""Does an earlier call change a later one?

A scenario is analysed twice in one interpreter.  Whatever survived the first analysis (module-level variables, default arguments, function
attributes, caches, captured variables) is then seen by the second one.  Two variations of the earlier call are considered:
  same     the earlier call had the same inputs: the second results must equal the first;
  changed  the earlier call had other inputs, except that quantities a surviving store uses as keys were the same: the leaves in the surviving
           state are renamed accordingly; a result of the second call in which a renamed leaf remains depends on the earlier call."""
import copy as _copy

from .build import *
from . import poly as pl
from .values import Cell, DF, LabelDF, LabelSeries, Series, SymKey, Partial, PyFn, Seg, Func, Phi, Opq
from .interp import Scope, Module
from .lib_rng import Gen

SIZES = {"T", "S", "A", "G", "K", "CAM", "NT", "E", "NF", "child_age_init_max", "init_exp_max", "lcb"}
MARK = "@earlier"


# ------------------------------------------------------------------ scenarios
def numbers(I, v, lab, out):
    if isinstance(v, Arr):
        ii = [leaf(f"hist_i{d}") for d in range(len(v.shape))]
        out.append((lab, v.at(*ii)))
    elif isinstance(v, NT):
        for k, q in v.fields.items():
            numbers(I, q, f"{lab}.{k}", out)
    elif isinstance(v, (tuple, PList)):
        for k, q in enumerate(v if isinstance(v, tuple) else v.items):
            numbers(I, q, f"{lab}[{k}]", out)
    elif isinstance(v, PDict):
        for k, q in v.d.items():
            numbers(I, q, f"{lab}[{k}]", out)
    return out


for _d in range(8):
    declare(f"hist_i{_d}", isint=True, lb=F(0), sample=(F(0), F(1), F(2), F(3)))





def s_reading(x, I):
    from .ob_spec import raw_spec, table, RS, RP

    def go():
        out = numbers(I, run(I, I.get(RP), [table(3)]), "parameters", [])
        return numbers(I, run(I, I.get(RS), [raw_spec(), table(3)]), "specification", out)
    return go


def s_tables(x, I):
    from .ob_tables import set_files, CH, EX, PA, ED
    set_files(I)

    def go():
        sp = spec(I)
        c = lambda nm, *a: run(I, I.get(nm), [sp, *a])
        fl = sp.fields
        out = []
        for lab, v in dict(child=c(CH + "gen_prob_child_vector"), age=c(CH + "gen_prob_child_init_age_vector"), partner=c(PA + "gen_prob_partner"),
                           present=c(PA + "gen_prob_partner_present_vector"), educ=c(ED + "gen_prob_educ_level_vector"),
                           pt=c(EX + "gen_prob_init_exp_component_vector", fl["pt_exp_shares_file_name"]),
                           ft=c(EX + "gen_prob_init_exp_component_vector", fl["ft_exp_shares_file_name"])).items():
            numbers(I, v, lab, out)
        return out
    return go


def s_space(x, I):
    from .ob_states import CS

    def go():
        r = run(I, I.get(CS), [spec(I, num_educ_levels=sc("E"))])
        return numbers(I, r, "state space", [])
    return go


def s_solve(reg, method):
    def sc_(x, I):
        def go():
            so = x.B.solve_in(I, reg, True, False, method)
            t, s, g = (leaf(f"hist_i{d}") for d in range(3))
            mp = {pl.single_atom(p).id: q for p, q in ((so.t, t), (so.s, s), (so.g, g))}
            return [(f"solved value {c}", pl.subst(so.em(c), mp)) for c in range(4)] + [(f"non-pecuniary utility {c}", pl.subst(so.ncu(c), mp)) for c in range(3)]
        return go
    return sc_


def s_sim(reg):
    def sc_(x, I):
        def go():
            si = x.B.sim_in(I, reg)
            j, k = leaf("hist_i0"), leaf("hist_i1")
            mp = {pl.single_atom(si.j).id: j}
            out = [(f"recorded {c}", pl.subst(si.rec(c), mp)) for c in si.df.cols] + [(f"next {c}", pl.subst(si.nxt(c), mp)) for c in si.new.cols]
            return out + [(f"entrant's {c}", si.entrant(c).at(j)) for c in si.new.cols]
        return go
    return sc_


def s_chain(built):
    def sc_(x, I):
        from .ob_chain import Chain, SIM
        from .lib import Sym
        ch = Chain(x)
        I = ch.I

        def go():
            n, m = len(ch.sims), len(ch.solved)
            if built:
                f = run(I, I.get(SIM + "get_simulate_func"), [Sym("params_a"), Sym("spec_a")])
                run(I, f, [Sym("params_1"), Sym("spec_a")])
            else:
                run(I, I.get(SIM + "simulate"), [Sym("params_a"), Sym("spec_a")])
            out = []
            for b, _ in ch.sims[n:]:
                for k, v in b.items():
                    numbers(I, v, f"simulated with {k}", out)
            for rec, p, *_ in ch.solved[m:]:
                numbers(I, p, "solved for", out)
                for k, v in rec["args"].items():
                    numbers(I, v, f"solver built with {k}", out)
            return out
        go.I = I
        return go
    return sc_


def scenario(what):
    if what.startswith("simulating in one"):
        return s_chain(False)
    if what.startswith("built"):
        return s_chain(True)
    if what.startswith("reading"):
        return s_reading
    if what.startswith("probability"):
        return s_tables
    if what.startswith("state space"):
        return s_space
    if what.startswith("solution"):
        _, reg, m = what.split(", ")
        return s_solve(reg, m)
    if what.startswith("simulation"):
        return s_sim(what.split(", ")[1])
    return None


# ------------------------------------------------------------------ surviving state
class Opaque(Exception):
    pass


def walk(I, visit):
    """apply visit to every mutable part that survives a call"""
    seen = set()

    def val(v):
        if id(v) in seen or v is None or isinstance(v, (str, int, float, bool)):
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            visit("arr", v)
        elif isinstance(v, PDict):
            visit("dict", v)
            for q in list(v.d.values()):
                val(q)
        elif isinstance(v, PList):
            for q in v.items:
                val(q)
        elif isinstance(v, (tuple, list)):
            for q in v:
                val(q)
        elif isinstance(v, NT):
            for q in v.fields.values():
                val(q)
        elif isinstance(v, Func):
            for q in list(v.defaults or []) + list((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or []):
                val(q)
            for q in v.attrs.state.values():
                val(q)
            scope(v.scope)
        elif isinstance(v, Partial):
            for q in [v.fn, *v.args, *v.kwargs.values()]:
                val(q)
        elif isinstance(v, PyFn):
            for q in v.captured:
                val(q)
        elif isinstance(v, (DF, Series, LabelDF, LabelSeries)):
            visit("frame", v)
        elif isinstance(v, Gen):
            visit("gen", v)
        elif isinstance(v, Seg):
            for q in v.items:
                val(q)
        elif isinstance(v, Phi):
            visit("opaque", v)
        elif isinstance(v, Opq):
            visit("opaque", v)

    def scope(s):
        while s is not None and id(s) not in seen:
            seen.add(id(s))
            for q in list(s.vars.values()):
                val(q)
            s = s.parent
    for m in I.modules.values():
        scope(m.scope)
    for d in I.stores:
        val(d)


def key_leaves(k, out):
    if isinstance(k, SymKey):
        out |= pl.leaf_names(k.p)
    elif isinstance(k, tuple):
        for q in k:
            key_leaves(q, out)


def earlier(I, keep):
    """rename the leaves of everything that survived"""
    def carried(nm):
        for lp in I.loops:
            if nm in lp.carried:
                return lp.carried[nm]
        return None
    moves = {}

    def moving(nm):
        """does a leaf stand for something other inputs would change?"""
        if nm in moves:
            return moves[nm]
        moves[nm] = False
        if nm in SIZES or nm in keep or MARK in nm or nm.startswith("uninitialised"):
            r = False
        elif nm in I.draws:
            d = I.draws[nm]
            ps = [d["seed"]] + [p.p() for p in d["params"].values() if isinstance(p, Arr) and not p.shape]
            r = any(moving(n) for p in ps if isinstance(p, P) for n in pl.leaf_names(p))
        elif "#" in nm or "." in nm or ":" in nm:
            c = carried(nm)
            r = False
            if c is not None:
                for q in (c.get("init"), c.get("next")):
                    if isinstance(q, Arr):
                        q = q.at(*[leaf(f"hist_i{d}") for d in range(len(q.shape))])
                    if isinstance(q, P) and any(moving(n) for n in pl.leaf_names(q)):
                        r = True
        else:
            r = not nm.startswith("hist_i") and nm not in ("je",)
        moves[nm] = r
        return r

    def name(nm):
        new = nm + MARK
        if new not in pl.DECL:
            d = _copy.copy(pl.DECL[nm])
            d.name = d.tag = new
            pl.DECL[new] = d
        return new

    def ren(p):
        return pl.subst_fn(C(p), fn)

    def fn(A):
        if A.kind == "leaf" and moving(A.args[0]):
            return leaf(name(A.args[0]), *[ren(q) if isinstance(q, P) else q for q in A.args[1:]])
        return None
    done = set()

    def buf(b):
        if id(b) in done:
            return
        done.add(id(b))
        f = b.state
        b.state = V.memo(lambda *i: ren(f(*i)))

    def key(k):
        if isinstance(k, SymKey):
            return SymKey(ren(k.p))
        if isinstance(k, tuple):
            return tuple(key(q) for q in k)
        return k

    def visit(kind, v):
        if kind == "arr":
            buf(v.buf)
        elif kind == "dict":
            v.cell.state = {key(k): q for k, q in v.d.items()}
        elif kind == "frame":
            if isinstance(v, Series):
                buf(v.arr.buf)
            elif isinstance(v, DF):
                for a in v.cols.values():
                    buf(a.buf)
            elif isinstance(v, LabelSeries):
                for k, p in list(v.rows.items()):
                    v.rows[k] = ren(p)
            else:
                for k, p in list(v.rows.items()):
                    v.rows[k] = ren(p)
        elif kind == "gen":
            st, seed, n = v.cell.state
            v.cell.state = (st, ren(seed) if seed is not None else None, n)
        else:
            raise Opaque()
    walk(I, visit)
    if I.rng is not None:
        visit("gen", I.rng)


# ------------------------------------------------------------------ comparison
def draw_key(I, first, upto):
    """draw name -> (seed, position in the stream since seeding, distribution); for draws of rng_events[first:upto]"""
    pos, cur, out = {}, {}, {}
    for e in I.rng_events[:upto]:
        g = e["gen"] if "gen" in e else None
        if e["kind"] == "seed":
            pos[g], cur[g] = 0, e["seed"]
        elif e["kind"] == "draw":
            d = I.draws[e["name"]]
            out[e["name"]] = (g.rstrip("0123456789"), d["seed"], d["seedkind"], pos.get(g, 0), d["dist"])
            pos[g] = pos.get(g, 0) + 1
    return out


def differs(x, what):
    """description of a result that differs after an earlier call, '' if none, None if undecided"""
    sc_ = scenario(what)
    if sc_ is None:
        return None
    try:
        a = repeat(x, sc_)
        if a:
            return a
        b = changed(x, sc_)
        if b or a is None:
            return b or None
        return b
    except (Unsupported, AbsRaise, Opaque):
        return None


def repeat(x, sc_):
    I = x.B.fresh()
    go = sc_(x, I)
    I = getattr(go, "I", I)
    r1 = go()
    l1, c1 = len(I.loops), len(I.concats)
    r2 = go()
    dk = draw_key(I, 0, len(I.rng_events))
    first = {}
    for n, k in dk.items():
        first.setdefault(k, n)
    la, lb = I.loops[:l1], I.loops[l1:]
    both = matched(la, lb)
    if both is None:
        return None
    ren, ks = {}, {}
    for p, q in both:
        if p.kind != q.kind or len(p.carried) != len(q.carried) or len(p.frames) != len(q.frames):
            return None
        ren.update(zip(q.carried, p.carried))
        if isinstance(q.k, P):
            ks[pl.single_atom(q.k)] = p.k
        for (pre2, _), (pre1, _) in zip(q.frames.items(), p.frames.items()):
            ren[pre2] = pre1
    cs = list(I.concats.values())
    cboth = matched(cs[:c1], cs[c1:])
    if cboth is None:
        return None
    for p, q in cboth:
        ren[q.prefix] = p.prefix

    def one(p):
        def fn(A):
            if A in ks:
                return C(ks[A])
            if A.kind == "leaf":
                nm = A.args[0]
                new = None
                if nm in dk:
                    new = first[dk[nm]]
                elif nm in ren:
                    new = ren[nm]
                elif "." in nm and nm.rsplit(".", 1)[0] in ren:
                    new = ren[nm.rsplit(".", 1)[0]] + "." + nm.rsplit(".", 1)[1]
                if new is not None and new != nm:
                    return leaf(new, *[one(q) if isinstance(q, P) else q for q in A.args[1:]])
            return None
        return pl.subst_fn(p, fn)
    pairs = list(zip(r1, r2))
    for p, q in both:
        if p.kind != "scan":
            continue
        for (n1, d1), (n2, d2) in zip(p.carried.items(), q.carried.items()):
            u, w = d1.get("next"), d2.get("next")
            if isinstance(u, Arr) and isinstance(w, Arr):
                ii = [leaf(f"hist_i{d}") for d in range(len(u.shape))]
                pairs.append((("carried value", u.at(*ii)), ("", w.at(*ii))))
    if len(r1) != len(r2):
        return None
    und = False
    for (lab, p), (_, q) in pairs:
        r = x.A.equal(one(q), one(p))
        if r.status == "refuted":
            return f"{lab} differs between two calls with the same inputs"
        und = und or r.status != "proved"
    return None if und else ""


def matched(la, lb):
    """pairs (first, second) by place in the source; the second analysis may skip what a cache replaced"""
    out, i = [], 0
    for q in lb:
        while i < len(la) and la[i].where != q.where:
            i += 1
        if i == len(la):
            return None
        out.append((la[i], q))
        i += 1
    return out


def changed(x, sc_):
    I = x.B.fresh()
    go = sc_(x, I)
    I = getattr(go, "I", I)
    go()
    keep = set()
    walk(I, lambda kind, v: [key_leaves(k, keep) for k in v.d] if kind == "dict" else None)
    earlier(I, keep)
    mark = len(I.draws)
    r2 = go()
    und = False
    for lab, p in r2:
        names = {n for n in pl.leaf_names(p) if MARK in n or n in I.draws and I.draws[n]["seed"] is not None and any(MARK in m for m in pl.leaf_names(I.draws[n]["seed"]))}
        if not names:
            continue
        if compares(p):
            und = True
            continue
        return f"{lab} depends on {sorted(n.replace(MARK, '') for n in names)[:3]} of an earlier call"
    return None if und else ""


def compares(p):
    """does the graph compare an earlier quantity with a current one?"""
    for A in pl.p_atoms_deep(p) if hasattr(pl, "p_atoms_deep") else deep_atoms(p):
        if A.kind in ("eq", "ge"):
            ns = {n for q in A.args if isinstance(q, P) for n in pl.leaf_names(q)}
            if any(MARK in n for n in ns) and any(n + MARK in ns for n in ns):
                return True
    return False


def deep_atoms(p, seen=None):
    seen = seen if seen is not None else set()
    for m in p.t:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            A = pl.ATOMS[a]
            yield A
            for q in A.args:
                if isinstance(q, P):
                    yield from deep_atoms(q, seen)
