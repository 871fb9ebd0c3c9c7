"""Obligations, verdicts, evidence.

An obligation is a statement about the value graphs (or effects) found in /repo's source; it belongs to one or more
properties.  Verdicts of its parts:
  proved    - normal forms coincide, or a rule over the recorded effects / dependencies holds
  agree     - not reduced to one normal form, but indistinguishable under random interpretation of both graphs
  refuted   - graphs differ, with a legal valuation of the inputs as witness, or a rule is broken at a named construct
  known     - exactly the defect listed in known_findings.txt
  undecided - the analysed code left what the analyser models; never an alarm"""
import ast
import json
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback

OBS = []


def ob(*props, text, anchor, thorough=False, shards=1):
    """shards: number of worker processes over which the obligation's runs (x.share) are distributed"""
    def deco(f):
        OBS.append(dict(shards=shards, props=props, text=text, anchor=anchor if isinstance(anchor, (list, tuple)) else [anchor], fn=f, id=f.__name__, thorough=thorough))
        return f
    return deco


class Source:
    """where a dotted name is defined in the current tree"""

    def __init__(self, root):
        self.root = root

    def locate(self, dotted):
        parts = dotted.split(".")
        for n in range(len(parts), 0, -1):
            p = os.path.join(self.root, *parts[:n]) + ".py"
            if os.path.exists(p):
                rest = parts[n:]
                rel = os.path.relpath(p, self.root)
                if rest:
                    try:
                        with open(p) as f:
                            tree = ast.parse(f.read())
                        for node in ast.walk(tree):
                            if isinstance(node, ast.FunctionDef) and node.name == rest[-1]:
                                return f"{rel}:{node.lineno} {rest[-1]}"
                    except SyntaxError:
                        pass
                return f"{rel} {'.'.join(rest)}".strip()
        return dotted


def legal(mp):
    """conditions under which the values of a cell are within the declared ranges of the leaves they replace; None: never"""
    from . import poly as pl
    out = []
    for a, v in mp.items():
        A = pl.ATOMS[a]
        if A.kind != "leaf":
            continue
        d = pl.DECL[A.args[0]]
        for b, up in ((d.ub, True), (d.lb, False)):
            b = b(*A.args[1:]) if callable(b) else b
            if b is None:
                continue
            q = pl.ge(pl.C(b) - pl.C(v) if up else pl.C(v) - pl.C(b))
            if not q.t:
                return None
            if not q.is_const():
                out.append(q)
    return out


class Rec:
    """collects the parts of one obligation"""

    def __init__(self, ctx, o):
        self.ctx, self.o = ctx, o
        self.B, self.A = ctx.B, ctx.A
        self.tier = ctx.tier
        self.parts = []
        self.shard = (0, 1)

    def share(self, seq):
        """the runs of this worker"""
        i, n = self.shard
        return [v for k, v in enumerate(seq) if k % n == i]

    def first(self):
        return self.shard[0] == 0

    def add(self, label, status, anchor=None, **info):
        an = anchor if anchor is not None else self.o["anchor"]
        if isinstance(an, str):
            an = [an]
        self.parts.append(dict(label=label, status=status, anchor=list(an), info=info))
        return status

    def eq(self, label, got, ref, anchor=None, **kw):
        r = self.A.equal(got, ref, **kw)
        return self.add(label, r.status, anchor, **r.info)

    def split(self, label, got, ref, cells, anchor=None, **kw):
        """equality by exhaustive case split: cells are substitutions covering all values of discrete leaves; falls back to the
        arbiter on the whole graphs"""
        from . import poly as pl
        from .poly import C
        got, ref = C(got), C(ref)
        left = []
        if not (got is ref or not (got - ref).t):
            for mp in cells:
                a, b = pl.subst(got, mp), pl.subst(ref, mp)
                if a is not b:
                    d = a - b
                    if d.t and pl.tidy(d).t:
                        left.append((a, b, mp))
        if not left:
            return self.add(label, "proved", anchor, how="normal forms, exhaustive case split", cells=len(cells))
        need = kw.pop("need", ())
        r = self.A.equal(got, ref, need=need, **kw)
        if r.status not in ("refuted", "proved"):
            # the cells that are left, one by one, in evenly spaced order
            t0 = time.time()
            step = max(1, len(left) // 8)
            for a, b, mp in left[::step]:
                ok = legal(mp)
                if ok is None:
                    continue
                q = self.A.equal(a, b, need=(*need, *ok), effort=0.3, **kw)
                if q.status == "refuted":
                    return self.add(label, "refuted", anchor, **dict(q.info, cell=show_cell(mp)))
                if time.time() - t0 > (8 if self.tier == "quick" else 60):
                    break
        return self.add(label, r.status, anchor, **r.info)

    def cells(self, label, rows, anchor=None, **kw):
        """rows: (got, ref, cell) of an exhaustive case split; proved if all are, else the worst cell"""
        worst = None
        need = kw.pop("need", ())
        for got, ref, mp in rows:
            ok = legal(mp)
            if ok is None:
                continue
            r = self.A.equal(got, ref, need=(*need, *ok), **kw)
            if r.status == "refuted":
                r.info["cell"] = show_cell(mp)
                return self.add(label, "refuted", anchor, **r.info)
            if r.status != "proved" and (worst is None or r.status == "undecided"):
                worst = (r, mp)
        if worst:
            return self.add(label, worst[0].status, anchor, **dict(worst[0].info, cell=show_cell(worst[1]), cells=len(rows)))
        return self.add(label, "proved", anchor, how="normal forms, exhaustive case split", cells=len(rows))

    def ge(self, label, got, ref, anchor=None, **kw):
        r = self.A.at_least(got, ref, **kw)
        return self.add(label, r.status, anchor, **r.info)

    def holds(self, label, cond, anchor=None, why=None, **info):
        """a rule decided on the graph / effects themselves"""
        if cond:
            return self.add(label, "proved", anchor, how="rule", **info)
        return self.add(label, "refuted", anchor, why=why or "rule broken", **info)

    def undecided(self, label, why, anchor=None):
        return self.add(label, "undecided", anchor, why=why)

    def known(self, label, key, what, anchor=None):
        return self.add(label, "known", anchor, key=key, what=what)


def show_cell(mp):
    from . import poly as pl
    return ", ".join(f"{pl.show_atom(pl.ATOMS[k])}={pl.show(v)}" for k, v in mp.items())


class Ctx:
    def __init__(self, root, tier, seed):
        from .build import Build
        from .prove import Arbiter
        self.root, self.tier, self.seed = root, tier, seed
        self.B = Build(root)
        self.A = Arbiter(tier, seed)
        self.src = Source(root)


def load_known(path):
    """lines 'KNOWN property=<id> key=<key> <what>' (others are documentation)"""
    out = {}
    if os.path.exists(path):
        for ln in open(path):
            w = ln.strip().split(" ", 3)
            if len(w) >= 3 and w[0] == "KNOWN":
                out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3] if len(w) > 3 else ""
    return out


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def run_task(ctx, o, i, n):
    from .interp import Unsupported
    from .values import AbsRaise
    from .valuation import Undecided
    r = Rec(ctx, o)
    r.shard = (i, n)
    t1 = time.time()
    try:
        o["fn"](r)
    except AbsRaise as e:
        r.undecided("analysis", f"the analysed code raises: {short(e)}")
    except (Unsupported, Undecided) as e:
        r.undecided("analysis", f"outside the modelled language: {short(e)}")
    except RecursionError:
        r.undecided("analysis", "value graph too deep")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        # a shape of result the obligation does not expect (attribute/key missing): not an alarm
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        r.undecided("analysis", f"unexpected form of the analysed code: {type(e).__name__}: {short(e)} at {os.path.basename(tb.filename)}:{tb.lineno}")
    for p in r.parts:
        p["info"] = {k: plain(v) for k, v in p["info"].items()}
    return r.parts, time.time() - t1, ctx.B.functions(), ctx.B.assumptions(), None


def plain(v):
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple, set)):
        return [plain(q) for q in v]
    if isinstance(v, dict):
        return {str(k): plain(q) for k, q in v.items()}
    return str(v)


def run_tasks(ctx, tasks):
    """one forked worker per task, at most JOBS at a time; results in the order of tasks"""
    jobs = int(os.environ.get("SA_JOBS") or max(1, min(8, (os.cpu_count() or 2))))
    if len(tasks) == 1 or jobs == 1:
        return [run_task(ctx, *t) for t in tasks]
    tmp = tempfile.mkdtemp(prefix="sa_")
    live, rcs = {}, {}
    todo = list(enumerate(tasks))
    try:
        while todo or live:
            while todo and len(live) < jobs:
                k, t = todo.pop(0)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        res = run_task(ctx, *t)
                        with open(os.path.join(tmp, str(k)), "wb") as f:
                            pickle.dump(res, f)
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        os._exit(rc)
                live[pid] = k
            pid, st = os.wait()
            if pid in live:
                rcs[live.pop(pid)] = st
        out = []
        for k in range(len(tasks)):
            try:
                with open(os.path.join(tmp, str(k)), "rb") as f:
                    out.append(pickle.load(f))
            except OSError:
                out.append(([], 0.0, [], [], f"analysis worker ended with status {rcs.get(k)}"))
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_check(prop, tier, root, verif, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(root, tier, seed)
    known = load_known(os.path.join(verif, "known_findings.txt"))
    obs = [o for o in OBS if prop in o["props"] and (tier == "thorough" or not o["thorough"]) and (only is None or o["id"] in only)]
    if not obs:
        print(f"no obligation for {prop}")
        return 2
    tasks = []
    for o in obs:
        n = o["shards"] * (2 if tier == "thorough" and o["shards"] > 1 else 1)
        tasks += [(o, i, n) for i in range(n)]
    rows, funcs, assumptions = [], set(), set()
    for (o, i, n), (parts, dt, fs, ass, err) in zip(tasks, run_tasks(ctx, tasks)):
        r = Rec(ctx, o)
        r.parts = parts
        if err:
            r.undecided("analysis", err)
        funcs |= set(fs)
        assumptions |= set(ass)
        rows.append((o, r, dt))
        if verbose:
            for p in r.parts:
                print(f"  [{o['id']}] {p['label']}: {p['status']} {short(p['info'], 1000 if p['status'] == 'refuted' else 200)}")
            print(f"  {o['id']} {dt:.1f}s")
    viol, kn, und = [], [], []
    count = {}
    for o, r, _ in rows:
        for p in r.parts:
            st = p["status"]
            if st == "known":
                if (prop, p["info"]["key"]) in known:
                    kn.append((o, p))
                else:
                    st = p["status"] = "refuted"
                    p["info"]["why"] = p["info"]["what"]
            count[st] = count.get(st, 0) + 1
            if st == "refuted":
                viol.append((o, p))
            if st == "undecided":
                und.append((o, p))
    wall = time.time() - t0
    for o, p in kn:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, p['info']['key'])]}")
    for o, p in und:
        print(f"UNDECIDED property={prop} obligation={o['id']} part={p['label']}: {short(p['info'].get('why'))}")
    total = sum(count.values())
    print(f"{prop}: {total} obligations: " + ", ".join(f"{v} {k}" for k, v in sorted(count.items())) + f" ({wall:.1f}s)")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Static: /repo's source is parsed and interpreted abstractly from its public entry points; every part below compares "
                        "a value graph, effect log or dependency set computed from the source with the property's reference. proved = equal normal "
                        "forms or rule holds; agree = equal under random interpretation of both graphs; undecided parts are never alarms.",
            obligations=total, discharged=count.get("proved", 0) + count.get("agree", 0), by_verdict=count,
            parts=[dict(obligation=o["id"], text=o["text"], part=p["label"], verdict=p["status"],
                        analysed=[ctx.src.locate(a) for a in p["anchor"]],
                        detail={k: (v if isinstance(v, (int, float, str)) else short(v, 200)) for k, v in p["info"].items() if k != "leaves"})
                   for o, r, _ in rows for p in r.parts],
            functions_analysed=sorted(funcs),
            checker_cmd=f"python3 /verif/check.py {prop} --tier {tier}"),
        assumptions=sorted(assumptions), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not viol:
        return 0
    os.makedirs(os.path.join(verif, "replay"), exist_ok=True)
    path = os.path.join(verif, "replay", f"{prop}.txt")
    with open(path, "w") as f:
        for o, p in viol:
            f.write(f"property {prop}, obligation {o['id']}: {o['text']}\npart: {p['label']}\n")
            for a in p["anchor"]:
                f.write(f"  construct: {ctx.src.locate(a)}\n")
            for k, v in p["info"].items():
                f.write(f"  {k}: {json.dumps(v, default=str)}\n")
            f.write(f"reproduce: python3 /verif/check.py {prop} --only {o['id']} --verbose\n\n")
    for o, p in viol:
        print(f"violated: {o['id']} / {p['label']} at {'; '.join(ctx.src.locate(a) for a in p['anchor'])}: "
              f"{short(p['info'].get('why') or 'analysed %s, expected %s' % (p['info'].get('got'), p['info'].get('ref')))}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1
