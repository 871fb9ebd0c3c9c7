"""Effects and dependencies: which inputs reach a value graph, what is written, which generators feed draws."""
import copy as _copy

from .build import *
from . import poly as pl
from .values import Cell, DF, LabelDF


# ------------------------------------------------------------------ ownership
def own(v, origin, seen=None):
    """mark everything reachable from a caller's object as the caller's"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return v
    seen.add(id(v))
    if isinstance(v, Arr):
        if v.shape and v.lib != "jax":
            v.buf.origin = origin
    elif isinstance(v, PList):
        v.cell.origin = origin
        for q in v.items:
            own(q, origin, seen)
    elif isinstance(v, PDict):
        v.cell.origin = origin
        for q in v.d.values():
            own(q, origin, seen)
    elif isinstance(v, (tuple, list)):
        for q in v:
            own(q, origin, seen)
    elif isinstance(v, NT):
        for n, q in v.fields.items():
            own(q, f"{origin}.{n}", seen)
    elif isinstance(v, (DF, LabelDF)):
        v.cell.origin = origin
        if isinstance(v, DF):
            for q in v.cols.values():
                own(q, origin, seen)
    return v


def snapshot(v, path, out=None, seen=None):
    """(path, object, immutable picture) of every mutable part of a caller's object"""
    out = out if out is not None else []
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Arr):
        if v.shape:
            out.append((path, v, (v.buf.state, v.shape)))
    elif isinstance(v, (PList, PDict)):
        out.append((path, v, v.cell.state if isinstance(v, PList) else dict(v.cell.state)))
        for n, q in (enumerate(v.items) if isinstance(v, PList) else v.d.items()):
            snapshot(q, f"{path}[{n!r}]", out, seen)
    elif isinstance(v, (tuple, list)):
        for n, q in enumerate(v):
            snapshot(q, f"{path}[{n}]", out, seen)
    elif isinstance(v, NT):
        for n, q in v.fields.items():
            snapshot(q, f"{path}.{n}", out, seen)
    elif isinstance(v, (DF, LabelDF)):
        st = v.cell.state
        out.append((path, v, dict(st) if isinstance(st, dict) else (dict(st[0]), st[1])))
    return out


def changes(A, snap):
    """parts of caller objects whose content differs from the snapshot; (path, decided)"""
    out = []
    for path, v, old in snap:
        if isinstance(v, Arr):
            f0, shape = old
            f1 = v.buf.state
            if f1 is f0:
                continue
            ii = [fresh_index(n, "m") for n in shape]
            try:
                base = Arr(shape, f0, v.dt, v.lib)
                r = A.equal(v.at(*ii), base.at(*ii)) if v.tobase is None else None
            except Exception:
                r = None
            if r is None or r.status == "undecided":
                out.append((path, None))
            elif r.status == "refuted":
                out.append((path, True))
            continue
        new = v.cell.state
        if isinstance(v, PList):
            same = len(new) == len(old) and all(alike(a, b) for a, b in zip(new, old))
        elif isinstance(v, PDict):
            same = list(new) == list(old) and all(alike(new[k], old[k]) for k in old)
        elif isinstance(v, LabelDF):
            same = list(new) == list(old) and all(new[k] is old[k] for k in old)
        else:
            same = new[1] is old[1] and list(new[0]) == list(old[0]) and all(new[0][k] is old[0][k] for k in old[0])
        if not same:
            out.append((path, True))
    return out


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr) and not a.shape and not b.shape:
        return a.p() is b.p()
    return isinstance(a, (str, int, float, bool)) and a == b


# ------------------------------------------------------------------ dependencies
def depends(A, p, pred, where=(), need=()):
    """leaf names satisfying pred on which the graph really depends: renaming them to fresh leaves of the same declaration changes its
    value.  Returns (names, undecided names)"""
    p = C(p)
    yes, maybe = [], []
    for nm in sorted(pl.leaf_names(p)):
        if not pred(nm):
            continue
        q = renamed(p, nm)
        r = A.equal(p, q, where=where, need=need)
        if r.status == "refuted":
            yes.append((nm, r.info))
        elif r.status != "proved":
            maybe.append(nm)
    return yes, maybe


def renamed(p, nm):
    new = nm + "'"
    if new not in pl.DECL:
        d = _copy.copy(pl.DECL[nm])
        d.name = new
        pl.DECL[new] = d
    return pl.subst_fn(p, lambda L_: leaf(new, *L_.args[1:]) if L_.kind == "leaf" and L_.args[0] == nm else None)


PREFERENCE = ("gamma_0", "gamma_1", "gamma_p", "gamma_p_mom", "no_kids_f", "no_kids_p", "yes_kids_f", "yes_kids_p", "child_0_2_f", "child_0_2_p", "child_3_5_f", "child_3_5_p",
              "child_6_10_f", "child_6_10_p", "shock_sd", "delta", "mu", "theta_p", "theta_f")
POLICY = ("ssc_rate", "ssc_cap", "ccc", "cb", "child_benefits", "egr", "egmin", "egmax", "erz", "erz_inc_s", "erz_inc_m", "alg1_nc", "alg1_c", "regelsatz_single", "regelsatz_child",
          "housing_single", "housing_addtion", "addition_child_single", "pcf_const", "pcf_age", "pcf_age_sq", "pcf_educ", "mw", "eqv", "scale")
VALUES = ("em", "ncu")
BEHAVIOUR = set(PREFERENCE + POLICY + VALUES)
EXO = ("Identifier", "Period", "Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator")


# ------------------------------------------------------------------ generators
def draw_order(I, name):
    """the generator's seed event before a draw, and whether everything in between is in order"""
    last = None
    for e in I.rng_events:
        if e["kind"] == "seed":
            last = e
        if e["kind"] == "draw" and e["name"] == name:
            return last
    return None
