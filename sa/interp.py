"""Abstract interpreter: Python AST -> value graphs, effects, loop summaries.  Nothing of the analysed program runs."""
import ast
import os
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .desugar import desugar


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.scope = None
        self.done = False


class Scope:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "origin", "module", "born", "local_names")

    def __init__(self, parent, module, origin=None):
        self.vars = {}
        self.parent, self.module, self.origin = parent, module, origin
        self.globals_ = set()
        self.nonlocals = set()
        self.born = V.CTX.tick() if V.CTX else 0


class Frame:
    def __init__(self, func, scope):
        self.func, self.scope = func, scope
        self.pc = ONE
        self.exits = []        # (guard, value)
        self.loopexit = []     # guards of break in the innermost loop
        self.node = None
        self.last = None


class Event:
    def __init__(self, kind, where, guard, **info):
        self.kind, self.where, self.guard, self.info = kind, where, guard, info

    def __repr__(self):
        return f"Event({self.kind}@{self.where} {self.info})"


def symbolic_key(k):
    return isinstance(k, SymKey) or isinstance(k, tuple) and any(symbolic_key(q) for q in k)


class LoopSummary:
    def __init__(self, kind, where, n, k):
        self.kind, self.where, self.n, self.k = kind, where, n, k
        self.carried = {}      # leaf name -> dict(desc, init fn or None, next fn or None)
        self.frames = {}       # havocked DF: desc -> (prefix, init DF, next DF)

    def __repr__(self):
        return f"Loop({self.kind}@{self.where} n={self.n} {list(self.carried)})"


class Concat:
    """rows of a frame assembled by concatenation, columns abstracted by leaves"""

    def __init__(self, prefix, parts, where):
        self.prefix, self.parts, self.where = prefix, parts, where
        self.guards = [ONE] * len(parts)


MISSING_FIELD = object()
COMPOUND = (ast.For, ast.While, ast.With, ast.Try, ast.If, ast.Match)


class Gaps(list):
    """constructs one interpreter did not model; also collected over all interpreters"""
    every = []

    def append(self, x):
        Gaps.every.append(x)
        super().append(x)


class Log(dict):
    def __init__(self, t0):
        super().__init__()
        self.t0 = t0


TERMINAL = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def leaves_function(s):
    """may the statement end the function: its effect cannot be approximated by havocking what it assigns"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return False
    return any(isinstance(n, (ast.Return, ast.Raise)) and n is not s for n in ast.walk(s)) and isinstance(s, (ast.For, ast.While, ast.With, ast.Try, ast.If, ast.Match))


def is_scalar_num(v):
    return is_num(v) and not arr_of(v).shape


def ends_terminal(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, TERMINAL):
        return True
    if isinstance(s, ast.If):
        return ends_terminal(s.body) and ends_terminal(s.orelse)
    return False


def is_gen_state(v):
    """state of a random generator: (kind, seed, 0)"""
    return isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] in ("seed", "unseeded")


class Interp:
    counter = 0

    def __init__(self, root, package="soepy"):
        self.root, self.package = root, package
        self.modules = {}
        self.clock = 0
        self.logs = []
        self.frames = []
        self.events = []
        self.unmodelled = Gaps()
        self.assumptions = []
        self.loops = []
        self.concats = {}
        self.maybe = {}          # (dictionary cell, key) -> (condition, value, cell) of keys stored on one side of a gate
        self.tries = []          # [handlers, reached conditionally] of the try statements being executed
        self.default_origin = None
        self.hints = {}          # column name -> dict of declaration keywords / 'rewrite'
        self.stores = []         # results kept by functools caches
        self.files = {}          # symbolic file name -> factory
        self.stubs = {}          # qualified function name -> python callable(I, args, kwargs)
        self.calls = []          # (caller, callee) resolved call edges
        self.funcs = set()
        self.depth = 0
        self.draws = {}          # leaf name -> info
        self.rng_events = []
        self.steps = 0
        self.loopstack = []      # indices of enclosing symbolic loops
        self.rng = None
        V.set_ctx(self)
        from . import lib
        self.lib = lib
        self.builtin_scope = lib.builtins()

    # ---------------------------------------------------------------- bookkeeping
    def tick(self):
        self.clock += 1
        return self.clock

    def where(self):
        for f in reversed(self.frames):
            if f.node is not None:
                mod = f.func.module if f.func else f.scope.module
                return (os.path.relpath(mod.path, self.root), getattr(f.node, "lineno", 0), f.func.name if f.func else "<module>")
        return None

    def guard(self):
        g = ONE
        for f in self.frames:
            g = pmul(g, f.pc)
        return g

    def event(self, kind, **info):
        e = Event(kind, self.where(), self.guard(), stack=[f.func.name for f in self.frames if f.func], **info)
        self.events.append(e)
        if kind == "raise" and pl.opaque_in(C(e.guard)):
            Gaps.every.append(("an error under an unknown condition", e.where))
        return e

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def uid(self, prefix):
        Interp.counter += 1
        return f"{prefix}{Interp.counter}"

    # ---------------------------------------------------------------- write log
    def on_write(self, obj, old, key=None):
        if self.logs:
            log = self.logs[-1]
            if obj.born > log.t0:
                return
            k = (id(obj), key)
            if k not in log:
                log[k] = (obj, key, old)

    def on_mutate(self, cell, what):
        o = cell.origin
        if o is not None:
            self.event("mutate", origin=o, what=what)

    def setvar(self, scope, name, val):
        self.on_write(scope, scope.vars.get(name, MISSING), name)
        scope.vars[name] = val

    def _get_state(self, obj, key):
        return obj.vars.get(key, MISSING) if isinstance(obj, Scope) else obj.state

    def _raw_set(self, obj, key, val):
        if isinstance(obj, Scope):
            if val is MISSING:
                obj.vars.pop(key, None)
            else:
                obj.vars[key] = val
        else:
            obj.state = val

    def _logged_set(self, obj, key, val):
        if isinstance(obj, Scope):
            self.setvar(obj, key, val)
        else:
            obj.set(val)

    def run_logged(self, fn):
        """run fn, collect writes {key: (obj, key, old, new)}, roll back; returns (result, writes)"""
        self.logs.append(Log(self.tick()))
        try:
            r = fn()
        except BaseException:
            log = self.logs.pop()
            for obj, key, old in log.values():
                self._raw_set(obj, key, old)
            raise
        log = self.logs.pop()
        w = {}
        for k, (obj, key, old) in log.items():
            w[k] = (obj, key, old, self._get_state(obj, key))
        for obj, key, old in log.values():
            self._raw_set(obj, key, old)
        return r, w

    def branch(self, c, fa, fb):
        """run both sides of a gate; join states; returns joined result"""
        if c is ONE:
            return fa()
        if c is ZERO:
            return fb()
        fr = self.frames[-1]
        pc0 = fr.pc
        last0 = fr.last

        def side(cond, f):
            fr.pc = pmul(pc0, cond)
            fr.last = None
            err = None
            try:
                r, w = self.run_logged(f)
            except AbsRaise as e:
                err = e
                self.in_try(e.exc)
                fr.pc = pmul(pc0, cond)
                self.event("raise", exc=e.exc, msg=e.msg, loc=e.loc)
                fr.pc = ZERO
                r, w = None, {}
            return r, w, fr.pc, fr.last, err
        ra, wa, pa, la, ea = side(c, fa)
        rb, wb, pb, lb, eb = side(ONE - c, fb)
        fr.last = last0
        if ea is not None and eb is not None:
            fr.pc = pc0
            raise eb
        fr.pc = pa + pb
        dropa = ea is not None or la == "return"
        dropb = eb is not None or lb == "return"
        if dropa and dropb:
            fr.last = "return"
        elif la and lb and not dropa and not dropb:
            fr.last = la
        if dropa and not dropb and ea is None:
            self._note_drop(wa)
        if dropb and not dropa and eb is None:
            self._note_drop(wb)
        for k in {**wa, **wb}:
            obj, key, old = (wa.get(k) or wb.get(k))[:3]
            na = wa[k][3] if k in wa else old
            nb = wb[k][3] if k in wb else old
            if dropa and not dropb:
                v = nb
            elif dropb and not dropa:
                v = na
            elif ea is not None:
                v = nb
            elif eb is not None:
                v = na
            else:
                v = self.join_state(obj, key, c, na, nb, old)
            if v is not MISSING:
                self._logged_set(obj, key, v)
        if dropa and not dropb:
            return rb
        if dropb and not dropa:
            return ra
        return self.join(c, ra, rb)

    def _note_drop(self, writes):
        for obj, key, old, new in writes.values():
            if not isinstance(obj, Scope) and obj.origin is not None:
                self.unmodelled.append(("heap write before a conditional return", self.where()))

    def join_state(self, obj, key, c, a, b, old):
        if a is b:
            return a
        if isinstance(obj, Scope):
            if a is MISSING:
                return b
            if b is MISSING:
                return a
            return self.join(c, a, b)
        # Cell states
        if callable(a) and callable(b):
            return memo(self._join_any(c, a, b))
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], dict) and isinstance(b[0], dict):
            if dim_eq(a[1], b[1]):
                cols = {}
                for n in {**a[0], **b[0]}:
                    if n in a[0] and n in b[0]:
                        cols[n] = self.join(c, a[0][n], b[0][n])
                    else:
                        cols[n] = a[0].get(n, b[0].get(n))
                        self.event("maybe-column", name=n, cond=c if n in a[0] else ONE - c)
                return (cols, a[1])
            self.unmodelled.append(("join of frames with different row counts", self.where()))
            return a
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for n in {**a, **b}:
                if n in a and n in b:
                    out[n] = self.join(c, a[n], b[n])
                else:
                    out[n] = a.get(n, b.get(n))
                    self.event("maybe-key", name=n, cond=c if n in a else ONE - c)
                here = select(c, self.has_key(obj, n, a[n]) if n in a else ZERO, self.has_key(obj, n, b[n]) if n in b else ZERO)
                if here is not ONE:
                    self.maybe[id(obj), n] = (here, out[n], obj)
            return out
        if is_gen_state(a) and is_gen_state(b):
            if a[0] != b[0] or a[1] is None or b[1] is None:
                return ("unseeded", None, 0)
            return ("seed", select(c, a[1], b[1]), 0)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.join(c, x, y) for x, y in zip(a, b))
            base = 0
            while base < min(len(a), len(b)) and a[base] is b[base]:
                base += 1
            ka, kb = a[base:], b[base:]
            out = a[:base]
            if ka and not kb:
                return out + (Seg(c, None, ka),)
            if kb and not ka:
                return out + (Seg(ONE - c, None, kb),)
            return out + (Seg(c, None, ka), Seg(ONE - c, None, kb))
        return self.join(c, a, b)

    def has_key(self, cell, name, value):
        """condition under which a key of a dictionary exists: some keys are stored on one side of a gate only"""
        m = self.maybe.get((id(cell), name))
        return m[0] if m is not None and m[1] is value else ONE

    def _join_any(self, c, a, b):
        """gate two element functions; under a guard any(m) the guard is dropped where m implies it"""
        g = self._any_guard(c)

        def f(*idx):
            x, y = a(*idx), b(*idx)
            if x is y:
                return x
            if g is not None:
                neg, mask_at = g
                for j in idx:
                    m = mask_at(j)
                    d = x - y if not neg else y - x
                    if not pmul(d, ONE - m).t:
                        return x if not neg else y
            return select(c, x, y)
        return f

    def _any_guard(self, c):
        for neg in (False, True):
            s = single_atom(ONE - c if neg else c)
            if s is not None and s.kind == "any":
                return neg, (lambda j, s=s: pl.instantiate(s, j))
        return None

    def join(self, c, a, b):
        if a is b:
            return a
        if c is ONE:
            return a
        if c is ZERO:
            return b
        if isinstance(a, (str, type(None), tuple)) and type(a) is type(b) and a == b and not isinstance(a, tuple):
            return a
        if is_num(a) and is_num(b):
            x, y = arr_of(a), arr_of(b)
            if not x.shape and not y.shape:
                p, q = x.p(), y.p()
                if p is q:
                    return x
                return Arr((), lambda: select(c, p, q), promote(x.dt, y.dt), "jax" if "jax" in (x.lib, y.lib) else ("np" if "np" in (x.lib, y.lib) else "py"))
            try:
                shp = broadcast_shapes(x.shape, y.shape)
            except AbsRaise:
                return Phi(c, a, b)
            if len(x.shape) != len(y.shape) or any(not dim_eq(s, t) for s, t in zip(x.shape, y.shape)):
                return Phi(c, a, b)
            fx, fy = x.fn(), y.fn()
            f = self._join_any(c, fx, fy)
            r = Arr(x.shape, f, promote(x.dt, y.dt), "jax" if "jax" in (x.lib, y.lib) else "np")
            if r.lib == "np":
                r.buf.alts = ((c, x), (ONE - c, y))     # the same object as one of the two: a store reaches it
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Series) and isinstance(b, Series):
            return Series(self.join(c, a.arr, b.arr), a.index, a.name)
        if isinstance(a, DF) and isinstance(b, DF):
            if dim_eq(a.n, b.n):
                st = self.join_state(a.cell, None, c, a.cell.state, b.cell.state, None)
                return DF(st[0], st[1], index=a.index)
            for x, y, cc in ((a, b, c), (b, a, ONE - c)):
                cat = self.concats.get(x.meta.get("concat"))
                if cat is not None and cat.parts[0][0] is y:
                    cat.guards = [cat.guards[0]] + [pmul(cc, g) for g in cat.guards[1:]]
                    return x
            return Opq("join of frames with different rows")
        if isinstance(a, NT) and isinstance(b, NT) and list(a.fields) == list(b.fields):
            return NT(a.name, {k: self.join(c, a.fields[k], b.fields[k]) for k in a.fields}, a.cls)
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and set(a.cell.state) == set(b.cell.state):
            r = Inst(a.cls)
            r.joined = a.joined = b.joined = True
            r.cell.set({k: self.join(c, x, b.cell.state[k]) for k, x in a.cell.state.items()})
            return r
        if isinstance(a, PList) and isinstance(b, PList) and a.simple() and b.simple() and len(a.items) == len(b.items):
            return PList([self.join(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PDict) and isinstance(b, PDict) and set(a.d) == set(b.d):
            return PDict({k: self.join(c, a.d[k], b.d[k]) for k in a.d})
        return Phi(c, a, b)

    # ---------------------------------------------------------------- modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = os.path.join(self.root, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            raise AbsRaise("ModuleNotFoundError", name)
        with open(path) as f:
            tree = desugar(ast.parse(f.read(), path))
        m = Module(name, path, tree)
        self.modules[name] = m
        save = self.default_origin
        m.scope = Scope(None, m, origin=f"global:{name}")
        self.default_origin = f"global:{name}"
        fr = Frame(None, m.scope)
        self.frames.append(fr)
        saved_logs, self.logs = self.logs, []
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()
            self.logs = saved_logs
            self.default_origin = save
        m.done = True
        return m

    def get(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        m = self.load(mod)
        v = m.scope.vars.get(name)
        if v is None:
            raise KeyError(dotted)
        return v

    # ---------------------------------------------------------------- names
    def lookup(self, name):
        scope = self.frames[-1].scope
        s = scope
        if name in s.globals_:
            s = s.module.scope
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        m = scope.module.scope
        if name in m.vars:
            return m.vars[name]
        if name in self.builtin_scope:
            return self.builtin_scope[name]
        raise AbsRaise("NameError", name, self.where())

    def assign_name(self, name, val):
        s = self.frames[-1].scope
        if name in s.globals_:
            s = s.module.scope
        elif name in s.nonlocals:
            t = s.parent
            while t is not None and name not in t.vars:
                t = t.parent
            s = t or s
        if s is not self.frames[-1].scope and s.origin is not None:
            self.event("mutate", origin=s.origin, what=f"variable {name}")
        self.setvar(s, name, val)

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts):
        i = 0
        fr = self.frames[-1]
        while i < len(stmts):
            if fr.pc is ZERO:
                return
            s = stmts[i]
            fr.node = s
            self.steps += 1
            if isinstance(s, ast.If):
                rest = list(stmts[i + 1:])
                if self.exec_if(s, rest):
                    return
            else:
                self.exec_stmt(s)
            i += 1

    def exec_if(self, s, rest):
        """returns True when the rest of the block was consumed"""
        try:
            c = self.truth(self.eval(s.test))
        except Unsupported as e:
            c = leaf(self._opq_cond(str(e)))
        if c is ONE:
            self.exec_block(s.body)
            return False
        if c is ZERO:
            self.exec_block(s.orelse)
            return False
        ta, tb = ends_terminal(s.body), ends_terminal(s.orelse)
        if ta and not tb and rest:
            self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(list(s.orelse) + rest))
            return True
        if tb and not ta and rest:
            self.branch(c, lambda: self.exec_block(list(s.body) + rest), lambda: self.exec_block(s.orelse))
            return True
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))
        return False

    def _opq_cond(self, why):
        n = self.uid("opqcond:")
        declare(n, binary=True, opaque=True)
        self.unmodelled.append((f"condition: {why}", self.where()))
        return n

    def exec_stmt(self, s):
        fr = self.frames[-1]
        m = getattr(self, "st_" + type(s).__name__, None)
        try:
            if m is None:
                self.unmodelled.append((f"statement {type(s).__name__}", self.where()))
                raise Unsupported(f"statement {type(s).__name__}")
            m(s)
        except Unsupported as e:
            if leaves_function(s):
                raise
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.assign_name(n.id, Opq(str(e)))
            stored = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if not stored or isinstance(s, COMPOUND) or any(
                    isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                self.poison(s, str(e), stored)
            fr.node = s

    def poison(self, s, why, assigned=()):
        """an effect that could not be modelled: the written object becomes opaque"""
        self.unmodelled.append((why, self.where()))
        if isinstance(s, (ast.Expr,) + COMPOUND):
            # calls made for their effect
            for c in ast.walk(s):
                if isinstance(c, ast.Call):
                    b = c.func
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    for a in [b if isinstance(c.func, ast.Attribute) else None, *c.args, *[k.value for k in c.keywords]]:
                        if isinstance(a, ast.Name):
                            try:
                                self.havoc_value(self.lookup(a.id), why)
                            except AbsRaise:
                                pass
        for t in ast.walk(s):
            if isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(getattr(t, "ctx", None), ast.Store):
                b = t.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in assigned:
                    # written through a name bound inside the statement: it may stand for anything read there
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.frames[-1].scope.vars:
                            self.havoc_value(self.frames[-1].scope.vars[n.id], why)
                elif isinstance(b, ast.Name):
                    try:
                        v = self.lookup(b.id)
                    except AbsRaise:
                        continue
                    self.havoc_value(v, why)

    def havoc_value(self, v, why):
        if isinstance(v, Arr):
            if not v.shape and v.lib == "py":
                return
            name = self.uid("opq:arr")
            declare(name, opaque=True)
            v.buf.set(memo(lambda *i: leaf(name, *i)))
        elif isinstance(v, DF):
            cols = {}
            for n, a in v.cols.items():
                nm = self.uid("opq:col")
                declare(nm, opaque=True)
                cols[n] = Arr(a.shape, lambda *i, nm=nm: leaf(nm, *i), a.dt)
            v.cell.set((cols, v.n))
        elif isinstance(v, PDict):
            v.cell.set({k: Opq(why) for k in v.d})
        elif isinstance(v, PList):
            v.cell.set(tuple(Opq(why) for _ in v.items))

    def st_Expr(self, s):
        v = self.eval(s.value)
        if isinstance(v, Opq) and isinstance(s.value, ast.Call):
            self.poison(s, v.why)

    def st_Pass(self, s):
        pass

    def st_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.binop(s.op, old, self.eval(s.value), inplace=True)
            if isinstance(old, Arr) and old.lib == "np" and old.ndim > 0 and isinstance(new, Arr) and old.tobase is None or (
                    isinstance(old, Arr) and old.lib == "np" and old.ndim > 0 and isinstance(new, Arr)):
                if len(new.shape) == len(old.shape):
                    # numpy in-place: writes the shared buffer
                    f = new.fn()
                    dn, do = new.dt, old.dt
                    if do == "int" and dn == "float":
                        raise AbsRaise("UFuncTypeError", "in-place cast", self.where())
                    nd = len(old.shape)
                    sh = new.shape
                    old.store(lambda *i: ONE, lambda *i: cast_p(f(*bidx(sh, nd, i)), dn, do))
                    return
            if isinstance(old, PList) and isinstance(s.op, ast.Add):
                self.on_mutate(old.cell, "list extended in place")
                old.cell.set(new.items)
                return
            self.assign_name(t.id, new)
            return
        if isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval_index(t.slice)
            old = self.getitem(obj, key)
            new = self.binop(s.op, old, self.eval(s.value), inplace=True)
            if isinstance(old, Arr) and old.lib == "np" and old.ndim > 0 and isinstance(obj, PDict):
                f, sh, nd, dn, do = new.fn(), new.shape, old.ndim, new.dt, old.dt
                old.store(lambda *i: ONE, lambda *i: cast_p(f(*bidx(sh, nd, i)), dn, do))
                return
            self.setitem(obj, key, new)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            new = self.binop(s.op, self.getattr(obj, t.attr), self.eval(s.value), inplace=True)
            self.setattr(obj, t.attr, new)
            return
        raise Unsupported("augmented assignment target")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        if isinstance(v, Opq):
            return [Opq("unpack")] * n
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, elts), self.unpack(v.b, elts)
            return [self.join(v.c, x, y) for x, y in zip(a, b)]
        kind, seq = self.iterate(v)
        if kind != "const":
            return self.unpack_sym(v, elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            tail = n - i - 1
            return seq[:i] + [PList(seq[i:len(seq) - tail])] + seq[len(seq) - tail:]
        if len(seq) != n:
            raise AbsRaise("ValueError", f"cannot unpack {len(seq)} values into {n}", self.where())
        return seq

    def unpack_sym(self, v, elts):
        """head, *rest, tail of an array of symbolic length (taken to be long enough)"""
        a = v.arr if isinstance(v, Series) else v
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not isinstance(a, Arr) or not star:
            raise Unsupported("unpacking of symbolic length")
        i, n = star[0], len(elts)
        size = a.shape[0]
        f, sh, dt, lb = a.fn(), a.shape, a.dt, a.lib
        lb = lb if lb != "list" else "py"

        def item(k):
            return Arr(sh[1:], lambda *j: f(k, *j), dt, lb)
        rest = Arr((size - (n - 1),) + tuple(sh[1:]), lambda k, *j: f(k + i, *j), dt, "list")
        return [item(C(k)) for k in range(i)] + [rest] + [item(size - k) for k in range(n - i - 1, 0, -1)]

    def st_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            dec = self.eval(d)
            f2 = self.lib.decorate(self, dec, f)
            f = f2
        self.assign_name(s.name, f)

    def make_func(self, s):
        scope = self.frames[-1].scope
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for d in list(defaults) + list(kwd.values()):
            self.lib.mark_default(d, f"default:{getattr(s, 'name', 'lambda')}")
        return Func(s, scope, scope.module, defaults, kwd, getattr(s, "name", "<lambda>"))

    def st_ClassDef(self, s):
        scope = Scope(self.frames[-1].scope, self.frames[-1].scope.module)
        bases = [self.eval(b) for b in s.bases]
        fr = Frame(self.frames[-1].func, scope)
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        kind = "plain"
        for b in bases:
            if isinstance(b, ClassObj):
                kind = b.kind if kind == "plain" else kind
            elif isinstance(b, Prim):
                kind = {"typing.NamedTuple": "namedtuple", "object": kind}.get(b.name, "enum" if b.name in ("enum.IntEnum", "enum.StrEnum", "enum.IntFlag") else "other")
            else:
                kind = "other"
        for d in s.decorator_list:
            v = self.eval(d)
            n = v.name if isinstance(v, Prim) else None
            if n == "dataclasses.dataclass":
                kind = "dataclass" if kind in ("plain", "dataclass") else "other"
            elif n not in ("typing.final", "functools.total_ordering", "jax.tree_util.register_dataclass", "jax.tree_util.register_pytree_node_class"):
                kind = "other"
        if s.keywords:
            kind = "other"
        cls = ClassObj(s.name, scope, bases, scope.module, s, kind)
        if kind == "enum":
            scope.vars.update({k: scalar(C(i + 1), "int") for i, k in enumerate(k for k, v in scope.vars.items() if isinstance(v, self.lib.EnumAuto))})
        self.assign_name(s.name, cls)

    def st_Return(self, s):
        try:
            v = self.eval(s.value) if s.value is not None else None
        except Unsupported as e:
            self.unmodelled.append((str(e), self.where()))
            v = Opq(str(e))
        fr = self.frames[-1]
        fr.exits.append((fr.pc, v))
        fr.pc = ZERO
        fr.last = "return"

    def st_Raise(self, s):
        name, msg = "Exception", ""
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                msg = ast.unparse(e.args[0]) if e.args else ""
            else:
                name = ast.unparse(e)
        raise AbsRaise(name.split(".")[-1], msg, self.where())

    def st_Assert(self, s):
        try:
            c = self.truth(self.eval(s.test))
        except Unsupported:
            return
        if c is ZERO:
            raise AbsRaise("AssertionError", ast.unparse(s.test), self.where())
        self.event("assert", cond=c)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc = self.frames[-1].scope
                self.on_write(sc, sc.vars.get(t.id, MISSING), t.id)
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                key = self.eval_index(t.slice)
                if isinstance(obj, PDict):
                    self.on_mutate(obj.cell, f"del key {key!r}")
                    d = dict(obj.d)
                    d.pop(key, None)
                    obj.cell.set(d)
                elif isinstance(obj, DF):
                    self.on_mutate(obj.cell, f"del column {key!r}")
                    c = dict(obj.cols)
                    c.pop(key, None)
                    obj.cell.set((c, obj.n))
                else:
                    raise Unsupported("del item")

    def st_Global(self, s):
        self.frames[-1].scope.globals_.update(s.names)

    def st_Nonlocal(self, s):
        self.frames[-1].scope.nonlocals.update(s.names)

    def st_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.package:
                self.load(a.name)
                self.assign_name(a.asname or top, Mod(a.name if a.asname else top))
            else:
                self.assign_name(a.asname or top, self.lib.module(a.name if a.asname else top))

    def st_ImportFrom(self, s):
        if s.module == "__future__":
            return
        mod = s.module or ""
        if s.level:
            base = self.frames[-1].scope.module.name.split(".")
            is_pkg = self.frames[-1].scope.module.path.endswith("__init__.py")
            base = base[: len(base) - s.level + (1 if is_pkg else 0)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            if mod.split(".")[0] == self.package:
                m = self.load(mod)
                if a.name == "*":
                    for k, v in m.scope.vars.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                if a.name in m.scope.vars:
                    self.assign_name(a.asname or a.name, m.scope.vars[a.name])
                else:
                    try:
                        self.load(mod + "." + a.name)
                        self.assign_name(a.asname or a.name, Mod(mod + "." + a.name))
                    except AbsRaise:
                        raise AbsRaise("ImportError", f"{mod}.{a.name}", self.where())
            else:
                self.assign_name(a.asname or a.name, self.lib.from_import(mod, a.name))

    def st_With(self, s):
        exits = []
        for it in s.items:
            v = self.eval(it.context_expr)
            enter, leave = self.lib.special(v, "__enter__"), self.lib.special(v, "__exit__")
            if enter is not None and leave is not None:
                exits.append((leave, v))
                v = self.call(enter, [v], {})
            elif isinstance(v, (Opq, Inst)):
                self.unmodelled.append(("context manager", self.where()))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        try:
            self.exec_block(s.body)
        except AbsRaise:
            for f, v in reversed(exits):
                r = self.call(f, [v] + [Opq("exception passed to __exit__") for _ in range(3)], {})
                if self.truth(r) is not ZERO:
                    self.unmodelled.append(("context manager suppressing an exception", self.where()))
            raise
        for f, v in reversed(exits):
            self.call(f, [v, None, None, None], {})

    def st_Try(self, s):
        entry = [s.handlers, False]
        self.tries.append(entry)
        try:
            self.exec_block(s.body)
            self.tries.pop()
            if entry[1]:
                raise Unsupported("exception raised under a condition and handled")
        except Unsupported:
            if entry in self.tries:
                self.tries.remove(entry)
            raise
        except AbsRaise as e:
            self.tries.remove(entry)
            for h in s.handlers:
                if self.exc_match(e.exc, h.type):
                    if h.name:
                        self.assign_name(h.name, Opq("exception object"))
                    self.exec_block(h.body)
                    break
            else:
                self.exec_block(s.finalbody)
                raise
        else:
            if s.handlers:
                self.event("try", body=len(s.body))
            self.exec_block(s.orelse)
        self.exec_block(s.finalbody)

    def in_try(self, exc):
        """an exception raised on some paths only: a handler around it would run on those paths"""
        for entry in reversed(self.tries):
            if any(self.exc_match(exc, h.type) for h in entry[0]):
                entry[1] = True
                return

    EXC_PARENTS = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "ModuleNotFoundError": ("ImportError",),
                   "NotImplementedError": ("RuntimeError",), "FileNotFoundError": ("OSError", "IOError"),
                   "UFuncTypeError": ("TypeError",), "ZeroDivisionError": ("ArithmeticError",)}

    def exc_match(self, exc, typ):
        if typ is None:
            return True
        names = [ast.unparse(t).split(".")[-1] for t in (typ.elts if isinstance(typ, ast.Tuple) else [typ])]
        fam = {exc, "Exception", "BaseException", *self.EXC_PARENTS.get(exc, ())}
        return any(n in fam for n in names)

    # ---------------------------------------------------------------- loops
    def st_Continue(self, s):
        fr = self.frames[-1]
        fr.pc = ZERO
        fr.last = "continue"

    def st_Break(self, s):
        fr = self.frames[-1]
        fr.loopexit.append(fr.pc)
        fr.pc = ZERO
        fr.last = "break"

    def st_While(self, s):
        fr = self.frames[-1]
        pc0 = fr.pc
        for _ in range(400):
            c = self.truth(self.eval(s.test))
            if c is ZERO:
                self.exec_block(s.orelse)
                return
            if c is not ONE:
                raise Unsupported("while with symbolic condition")
            saved = fr.loopexit
            fr.loopexit = []
            self.exec_block(s.body)
            br, fr.loopexit = fr.loopexit, saved
            if fr.pc is ZERO and fr.last == "return":
                return
            fr.last = None
            fr.pc = pc0
            if br:
                if pl.psum(br) is pc0:
                    return
                raise Unsupported("conditional break in while")
        raise Unsupported("while bound")

    def st_For(self, s):
        v = self.eval(s.iter)
        if isinstance(v, Phi):
            raise Unsupported("loop over gated sequence")
        kind, seq = self.iterate(v)
        if kind == "const":
            self.loop_const(s, seq, 0)
        else:
            n, el = seq
            self.loop_sym(s, n, el)
            self.exec_block(s.orelse)

    def loop_const(self, s, seq, i):
        fr = self.frames[-1]
        pc0 = fr.pc
        while i < len(seq):
            saved, fr.loopexit = fr.loopexit, []
            self.assign(s.target, seq[i])
            ret0 = pl.psum([g for g, _ in fr.exits])
            self.exec_block(s.body)
            br, fr.loopexit = fr.loopexit, saved
            ret = pl.psum([g for g, _ in fr.exits]) - ret0
            fr.last = None
            i += 1
            fr.pc = pc0 - ret          # continue and break paths rejoin
            if fr.pc is ZERO:
                fr.last = "return"
                return
            if br:
                g = pl.psum(br)
                if g is pc0:
                    return
                # remaining iterations only where not broken
                self.branch(self._rel(g, pc0), lambda: None, lambda: self.loop_const(s, seq, i))
                fr.last = None
                return
        self.exec_block(s.orelse)

    def _rel(self, g, pc):
        return g

    def iterate(self, v):
        """('const', [values]) or ('sym', (n, el))"""
        f = self.lib.special(v, "__iter__")
        if f is not None:
            return self.iterate(self.call(f, [v], {}))
        if isinstance(v, (list,)):
            return "const", v
        if isinstance(v, tuple):
            return "const", list(v)
        if isinstance(v, PSet):
            self.event("set-iteration")
            return "const", list(v.items)
        if isinstance(v, str):
            return "const", list(v)
        if isinstance(v, PDict):
            return "const", list(v.d)
        if isinstance(v, PList):
            if v.simple():
                return "const", list(v.items)
            if len(v.items) == 1 and len(v.items[0].items) == 1 and v.items[0].k is not None:
                sg = v.items[0]
                kid = single_atom(sg.k).id
                return "sym", (sg.n, lambda k: self.subst_value(sg.items[0], {kid: k}))
            raise Unsupported("iteration over a loop-built list")
        if isinstance(v, Rng):
            ln = self.rng_len(v)
            if ln.is_const():
                return "const", [scalar(v.start + v.step * i, "int") for i in range(max(0, int(ln.const())))]
            return "sym", (ln, lambda k: scalar(v.start + v.step * k, "int"))
        if isinstance(v, Series):
            v = v.arr
        if isinstance(v, Arr):
            if not v.shape:
                raise AbsRaise("TypeError", "iteration over a 0-d array", self.where())
            n = v.shape[0]
            if n.is_const():
                return "const", [V.getitem(v, scalar(C(i))) for i in range(int(n.const()))]
            f, sh, dt, lb = v.fn(), v.shape, v.dt, v.lib
            return "sym", (n, lambda k: Arr(sh[1:], lambda *i: f(k, *i), dt, lb if lb != "list" else "py"))
        if isinstance(v, NT):
            return "const", list(v.fields.values())
        if isinstance(v, DF):
            return "const", list(v.cols)
        if isinstance(v, self.lib.SymIter):
            return "sym", (v.n, v.el)
        if isinstance(v, Opq):
            raise Unsupported("iteration over opaque value")
        if isinstance(v, Idx):
            lv = v.levels[0]
            if isinstance(lv, tuple):
                return "const", list(lv)
            if isinstance(lv, LabelDF):
                return "const", [k if len(k) > 1 else k[0] for k in lv.rows]
            if isinstance(lv, dict) and len(lv) == 1:
                return self.iterate(next(iter(lv.values())))
        if isinstance(v, LabelSeries):
            return "const", [scalar(p) for p in v.rows.values()]
        if isinstance(v, LabelDF):
            return "const", [v.col]
        raise Unsupported(f"iteration over {type(v).__name__}")

    def iterate_const(self, v):
        kind, items = self.iterate(v)
        if kind != "const":
            raise Unsupported("membership in an iterator")
        return items

    def rng_len(self, v):
        d = v.stop - v.start
        if v.step is ONE:
            n = d
        elif v.step.is_const() and v.step.const() == -1:
            n = -d
        elif v.step.is_const():
            st = v.step.const()
            n = divmod_p((d if st > 0 else -d) + (abs(st) - 1), C(abs(st)))[0]
        else:
            raise Unsupported("range step")
        if n.is_const() and n.const() < 0:
            return ZERO
        return n

    # symbolic loop ------------------------------------------------------
    def loop_sym(self, s, n, el):
        fr = self.frames[-1]
        loopid = self.uid("L")
        k = fresh("k" + loopid, isint=True, lb=F(0), ub=n - 1)
        kid = single_atom(k).id
        ev0 = len(self.events)
        un0 = len(self.unmodelled)
        rng0 = len(self.rng_events)
        pc0 = fr.pc
        where = self.where()

        def body():
            ret0 = len(fr.exits)
            saved, fr.loopexit = fr.loopexit, []
            self.loopstack.append(k)
            try:
                self.assign(s.target, el(k))
                self.exec_block(s.body)
            finally:
                self.loopstack.pop()
            br, fr.loopexit = fr.loopexit, saved
            fr.pc = pc0
            fr.last = None
            if br or len(fr.exits) > ret0:
                del fr.exits[ret0:]
                raise Unsupported("early exit from a symbolic loop")

        t0 = self.clock

        def outer(w):
            r = {}
            for key, (obj, kk, old, new) in w.items():
                if isinstance(obj, Scope):
                    if obj.born > t0:
                        continue
                elif obj.born > t0:
                    continue
                r[key] = (obj, kk, old, new)
            return r
        counter0 = self.counter
        summ = LoopSummary("for", where, n, k)
        closed = {}
        known = {}
        # fix the set of carried things
        for rnd in range(6):
            del self.events[ev0:]
            del self.unmodelled[un0:]
            del self.rng_events[rng0:]
            Interp.counter = counter0
            self.logs.append(Log(self.tick()))
            try:
                hv = {}
                for key, (obj, kk, old) in known.items():
                    if key in closed:
                        val = closed[key][0]
                    else:
                        val = self.havoc(obj, kk, old, loopid, k)
                    hv[key] = val
                    self._logged_set(obj, kk, val)
                _, w = self.run_logged(body)
            finally:
                log = self.logs.pop()
                for obj, kk, old in log.values():
                    self._raw_set(obj, kk, old)
            w = outer(w)
            new = False
            for key, (obj, kk, old, nw) in w.items():
                if key not in known:
                    cur = self._get_state(obj, kk)
                    if cur is MISSING:
                        continue
                    known[key] = (obj, kk, cur)
                    new = True
            if new:
                continue
            # classify scalars
            again = False
            for key, (obj, kk, old) in known.items():
                if key in closed:
                    continue
                nv = w[key][3] if key in w else hv[key]
                c = self.closed_form(obj, kk, old, hv[key], nv, k, n, loopid)
                if c is not None:
                    closed[key] = c
                    again = True
            if not again:
                break
        # final states
        for key, (obj, kk, old) in known.items():
            nv = w[key][3] if key in w else hv[key]
            if key in closed:
                fin = closed[key][1]
            else:
                fin = self.finalize(obj, kk, old, hv[key], nv, k, n, loopid, summ)
            self._logged_set(obj, kk, fin)
        # names first defined in the loop body keep their last value
        for key, (obj, kk, old, nw) in w.items():
            if key in known:
                continue
            if isinstance(obj, Scope):
                self.setvar(obj, kk, self.subst_value(nw, {kid: n - 1}))
        self.loops.append(summ)
        fr.node = s

    def havoc(self, obj, key, old, loopid, k):
        name = f"{loopid}:{key or 'cell'}"
        if isinstance(obj, Scope):
            return self.havoc_like(old, f"{loopid}:{key}", k)
        if callable(old):           # array buffer
            nm = self.uid(f"{loopid}:buf")
            declare(nm)
            return memo(lambda *i: leaf(nm, k, *i))
        if isinstance(old, tuple) and len(old) == 2 and isinstance(old[0], dict):
            df = self.havoc_df(old[0], None, f"{loopid}:df", k)
            return df.cell.state
        if is_gen_state(old):
            return old
        if isinstance(old, tuple):
            return (HAVOC_LIST,)
        if isinstance(old, dict):
            return {n: self.havoc_like(v, f"{loopid}:{n}", k) for n, v in old.items()}
        return old

    def havoc_like(self, v, name, k):
        if isinstance(v, DF):
            df = self.havoc_df(v.cols, v, name, k)
            return df
        if is_num(v):
            a = arr_of(v)
            nm = self.uid(name + "#")
            d = declare(nm, isint=a.dt in INTS, binary=a.dt == "bool")
            shape = a.shape
            return Arr(shape, lambda *i: leaf(nm, k, *i), a.dt, a.lib, meta=("havoc", nm))
        if isinstance(v, tuple):
            return tuple(self.havoc_like(x, name, k) for x in v)
        if isinstance(v, Series):
            return Series(self.havoc_like(v.arr, name, k), v.index, v.name)
        if isinstance(v, (str, Func, Prim, NT, Mod, Partial, PyFn)) or v is None:
            return v
        if isinstance(v, (PList, PDict)):
            return v          # identity carried; content tracked through its cell
        return Opq("loop-carried " + type(v).__name__)

    def hinted(self, col, nm, isint):
        h = self.hints.get(col)
        if h:
            kw = {a: b for a, b in h.items() if a != "rewrite"}
            if "rewrite" in h:
                kw["rewrite"] = h["rewrite"]
            kw.setdefault("isint", isint)
            declare(nm, **kw)
        else:
            declare(nm, isint=isint)

    def havoc_df(self, cols, df, name, k):
        pref = self.uid(name + "#")
        nn = pref + ".n"
        declare(nn, isint=True, lb=F(0))
        n = leaf(nn, k)
        out = {}
        for c, a in cols.items():
            nm = f"{pref}.{c}"
            self.hinted(c, nm, a.dt in INTS)
            out[c] = Arr((n,), lambda j, nm=nm: leaf(nm, k, j), a.dt, "np")
        r = DF(out, n)
        r.meta["havoc"] = pref
        return r

    def closed_form(self, obj, key, old, hv, nv, k, n, loopid):
        """(value at iteration k, value after the loop) for induction variables"""
        if is_gen_state(old) and is_gen_state(nv):
            # a generator seeded again in the loop: the stream of an iteration goes on from the seed of the one before
            if old[0] != nv[0] or old[1] is None or nv[1] is None:
                st = nv if nv[0] == old[0] else ("unseeded", None, 0)
                return st, st
            if nv[1] is hv[1]:
                return hv, old
            if any(n_.startswith(loopid + ":") for n_ in leaf_names(nv[1])):
                return ("seed", select(eq(k), old[1], uf("seed_before", k)), 0), ("seed", uf("seed_before", n), 0)
            kid = single_atom(k).id
            return ("seed", select(eq(k), old[1], subst(nv[1], {kid: k - 1})), 0), ("seed", subst(nv[1], {kid: n - 1}), 0)
        if not isinstance(obj, Scope) or not is_num(old) or not is_num(nv) or not is_num(hv):
            return None
        a, h, b = arr_of(old), arr_of(hv), arr_of(nv)
        if a.shape or b.shape or h.shape:
            return None
        kid = single_atom(k).id
        x0, hp, out = a.p(), h.p(), b.p()
        hid = single_atom(hp).id
        if out is hp:
            return (hv, old) if False else (old, old)
        d = out - hp
        deps = p_deep(d)
        if hid not in deps and not any(ATOMS[z].kind == "leaf" and str(ATOMS[z].args[0]).startswith(loopid + ":") for z in deps):
            if kid not in deps:
                f = lambda kk: x0 + pmul(d, kk)
            else:
                lin = d - subst(d, {kid: ZERO})
                co = subst(d, {kid: ONE}) - subst(d, {kid: ZERO})
                if lin is pmul(co, k) and kid not in p_deep(co):
                    c0 = subst(d, {kid: ZERO})
                    f = lambda kk: x0 + pmul(c0, kk) + pscale(pmul(co, pmul(kk, kk - 1)), F(1, 2))
                else:
                    f = lambda kk: x0 + pl.sumd(lambda j: subst(d, {kid: j}), kk)
            dt = promote(a.dt, b.dt)
            if all(x.isint() for x in (x0, d)):
                dt = "int"
            return scalar(f(k), dt), scalar(f(n), dt)
        deps = p_deep(out)
        if not any(ATOMS[z].kind == "leaf" and str(ATOMS[z].args[0]).startswith(loopid + ":") for z in deps):
            # recomputed every iteration
            prev = select(eq(k), x0, subst(out, {kid: k - 1}))
            return scalar(prev, b.dt), scalar(subst(out, {kid: n - 1}), b.dt)
        return None

    def finalize(self, obj, key, old, hv, nv, k, n, loopid, summ):
        kid = single_atom(k).id
        last = {kid: n - 1}
        if isinstance(obj, Scope):
            if isinstance(hv, DF) and isinstance(nv, DF):
                summ.frames[hv.meta["havoc"]] = (key, old, hv, nv)
            elif isinstance(hv, Arr) and hv.meta and hv.meta[0] == "havoc":
                summ.carried[hv.meta[1]] = dict(desc=key, init=old, next=nv)
            if nv is hv and isinstance(nv, (PList, PDict, str, Func, Prim, NT)) or nv is None:
                return nv
            return self.subst_value(nv, last)
        if callable(old):
            return self.final_buffer(old, hv, nv, k, n, loopid)
        if isinstance(old, tuple) and len(old) == 2 and isinstance(old[0], dict):
            summ.frames["cell"] = (None, old, hv, nv)
            return ({c: self.subst_value(a, last) for c, a in nv[0].items()}, subst(nv[1], last))
        if is_gen_state(old):
            return nv if is_gen_state(nv) else ("unseeded", None, 0)
        if isinstance(old, tuple):
            if nv and nv[0] is HAVOC_LIST:
                app = nv[1:]
                return old + ((Seg(n, k, tuple(app)),) if app else ())
            return (Opq("list rewritten in a loop"),)
        if isinstance(old, dict):
            out = {}
            for nme, v in nv.items():
                if nme in old and nme in hv and v is hv[nme]:
                    out[nme] = old[nme]
                else:
                    out[nme] = self.subst_value(v, last)
            return out
        return Opq("loop state")

    def final_buffer(self, old, hv, nv, k, n, loopid):
        """array written inside a symbolic loop: last store wins; solve the store guard for the loop index"""
        kid = single_atom(k).id

        def f(*idx):
            h = hv(*idx)
            out = nv(*idx)
            if out is h:
                return old(*idx)
            ha = single_atom(h)
            if ha is None:
                return opaque("loop-store")
            hid = ha.id
            keep, rest = {}, {}
            for m, c in out.t.items():
                d = dict(m)
                z = self._same_cell(ha, m)
                if z is not None:
                    del d[z]
                    key = tuple(sorted(d.items()))
                    keep[key] = keep.get(key, 0) + c
                else:
                    rest[m] = c
            co, val = mkP(keep), mkP(rest)
            if any(ATOMS[z].kind == "leaf" and str(ATOMS[z].args[0]).startswith(loopid + ":") for z in p_deep(co) | p_deep(val)):
                return opaque("loop-store")
            cond = ONE - co
            if co is ONE:
                # accumulated over the iterations
                return old(*idx) + pl.sum_bound(val, k, n)
            if pl.tidy(pmul(co, co)) is not pl.tidy(co):
                return opaque("loop-store")
            if kid not in p_deep(cond):
                if cond is ONE:
                    return subst(val, {kid: n - 1})
                v = subst(val, {kid: n - 1})
                return v + pmul(co, old(*idx))
            # every monomial of cond carries a factor [k == e]: the storing iterations are among finitely many candidates
            cands = {}
            for m in list(cond.t) + list(val.t):
                here = []
                for z, _ in m:
                    A = ATOMS[z]
                    if A.kind == "eq" and kid in p_deep(A.args[0]):
                        e = solve_linear(A.args[0] - A.args[1], kid)
                        if e is not None:
                            here.append(e)
                if not here:
                    return opaque("loop-store")
                if not any(e in cands for e in here):
                    cands[here[0]] = None
            C0, E0, V0 = ZERO, None, None
            for e in cands:
                rng = pmul(ge(e), ge(n - 1 - e))
                if not e.isint():
                    rng = pmul(rng, eq(e - pl.floor(e)))
                c2 = pl.tidy(pmul(rng, subst(cond, {kid: e})))
                v2 = pmul(rng, subst(val, {kid: e}))
                if E0 is None:
                    C0, E0, V0 = c2, e, v2
                else:
                    take = pmul(c2, ONE - C0 + pmul(C0, ge(e - E0)))
                    V0, E0 = pl.tidy(pmul(take, v2) + pmul(ONE - take, V0)), select(take, e, E0)
                    C0 = pl.tidy(pl.b_or(C0, c2))
            return V0 + pmul(ONE - C0, old(*idx))
            # stores for a suffix / everything: not solvable
            return opaque("loop-store")
        return memo(f)

    @staticmethod
    def _same_cell(ha, m):
        """the factor of monomial m that denotes the buffer cell ha (also where the monomial's guards pinned indices)"""
        for z, e in m:
            if z == ha.id and e == 1:
                return z
        for z, e in m:
            A = ATOMS[z]
            if e == 1 and A.kind == "leaf" and A.args[0] == ha.args[0] and len(A.args) == len(ha.args):
                g = mkP({tuple(x for x in m if x[0] != z): F(1)})
                w = g
                for a, b in zip(A.args[1:], ha.args[1:]):
                    if a is not b:
                        w = pmul(w, eq(a - b))
                if w is g:
                    return z
        return None

    # ---------------------------------------------------------------- substitution in values
    def subst_value(self, v, mp):
        if isinstance(v, Arr):
            f = v.fn()
            return Arr(tuple(subst(s, mp) for s in v.shape), lambda *i: self._subst_at(f, mp, i), v.dt, v.lib)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, mp) for x in v)
        if isinstance(v, PList):
            return PList(tuple(self.subst_value(x, mp) for x in v.items))
        if isinstance(v, PDict):
            return PDict({k: self.subst_value(x, mp) for k, x in v.d.items()})
        if isinstance(v, NT):
            return NT(v.name, {k: self.subst_value(x, mp) for k, x in v.fields.items()}, v.cls)
        if isinstance(v, DF):
            r = DF({c: self.subst_value(a, mp) for c, a in v.cols.items()}, subst(v.n, mp), index=v.index)
            r.meta = dict(v.meta)
            return r
        if isinstance(v, Series):
            return Series(self.subst_value(v.arr, mp), v.index, v.name)
        if isinstance(v, Phi):
            return self.join(subst(v.c, mp), self.subst_value(v.a, mp), self.subst_value(v.b, mp))
        if isinstance(v, Seg):
            return Seg(subst(v.n, mp), v.k, tuple(self.subst_value(x, mp) for x in v.items))
        return v

    @staticmethod
    def _subst_at(f, mp, idx):
        """element of f at idx after substituting mp in the body only (idx must not be captured)"""
        ids = set(mp)
        clash = any(ids & p_deep(i) for i in idx)
        if not clash:
            return subst(f(*idx), mp)
        tmp = [fresh("t", isint=True) for _ in idx]
        p = subst(f(*tmp), mp)
        return subst(p, {single_atom(t).id: i for t, i in zip(tmp, idx)})

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        """P for the truth value"""
        if isinstance(v, bool):
            return ONE if v else ZERO
        if v is None:
            return ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, (tuple, list)):
            return ONE if v else ZERO
        if is_num(v):
            a = arr_of(v)
            if a.shape and not all(s is ONE for s in a.shape):
                raise Unsupported("truth value of an array")
            p = a.p()
            if a.dt == "bool":
                return p
            if single_atom(p) is not None and single_atom(p).kind == "count":
                s = single_atom(p)
                return pl.mk_binder("any", s.args[0], s.args[1], s.args[2])
            return ONE - eq(p)
        if isinstance(v, PList):
            if v.simple():
                return ONE if v.items else ZERO
            return ge(self.lib.list_len(v) - 1)
        if isinstance(v, PDict):
            return ONE if v.d else ZERO
        if isinstance(v, Phi):
            return select(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Inst, NT)):
            f = self.lib.special(v, "__bool__")
            if f is None:
                f = self.lib.special(v, "__len__")
            if f is not None:
                return self.truth(self.call(f, [v], {}))
        if isinstance(v, Opq):
            return leaf(self._opq_cond(v.why))
        if isinstance(v, self.lib.Sym):
            return ONE
        if isinstance(v, Rng):
            return ge(self.rng_len(v) - 1)
        return ONE

    def to_arr(self, v):
        return self.lib.to_arr(self, v)

    # ---------------------------------------------------------------- expressions
    def eval(self, e):
        fr = self.frames[-1]
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return Opq(f"expression {type(e).__name__}")
        if hasattr(e, "lineno"):
            fr.node = e
        return m(e)

    def ev_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or v is Ellipsis:
            return v
        if isinstance(v, int):
            return scalar(C(v), "int")
        if isinstance(v, float):
            return scalar(C(v), "float")
        return Opq("constant")

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                k, s = self.iterate(self.eval(x.value))
                if k != "const":
                    raise Unsupported("starred symbolic sequence")
                out.extend(s)
            else:
                out.append(self.eval(x))
        return tuple(out)

    def ev_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            vals = [(isinstance(x, ast.Starred), self.eval(x.value if isinstance(x, ast.Starred) else x)) for x in e.elts]
            if any(st and isinstance(v, (Arr, Series)) and not arr_of(getattr(v, "arr", v)).shape[:1][0].is_const() for st, v in vals if not is_scalar_num(v)):
                # numbers around a sequence of symbolic length
                parts = []
                for st, v in vals:
                    a = self.lib.to_arr(self, v)
                    if not st:
                        if a.shape:
                            raise Unsupported("starred symbolic sequence")
                        p = a.p()
                        a = Arr((ONE,), lambda i, p=p: p, a.dt, "list")
                    if a.ndim != 1:
                        raise Unsupported("starred symbolic sequence")
                    parts.append(a)
                r = self.lib.concat_arrs(parts, 0)
                r.lib = "list"
                return r
            out = []
            for st, v in vals:
                if st:
                    k, s = self.iterate(v)
                    if k != "const":
                        raise Unsupported("starred symbolic sequence")
                    out.extend(s)
                else:
                    out.append(v)
            return PList(out, origin=self.default_origin)
        return PList(self.ev_Tuple(e), origin=self.default_origin)

    def ev_Set(self, e):
        return PSet([self.eval(x) for x in e.elts])

    def ev_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v)
                if isinstance(x, PDict):
                    d.update(x.d)
                else:
                    raise Unsupported("dict unpacking")
            else:
                d[self.hashable(self.eval(k))] = self.eval(v)
        return PDict(d, origin=self.default_origin)

    def hashable(self, k, of=None):
        """dictionary key; symbolic numbers only as keys of dictionaries used as stores (of: the dictionary)"""
        if isinstance(k, Arr) and not k.shape:
            c = const_int(k)
            if c is not None or k.p().is_const():
                if isinstance(of, PDict) and of.cell.origin is None and any(symbolic_key(q) for q in of.d):
                    raise Unsupported("dictionary with constant and symbolic keys")
                return c if c is not None else k.p().const()
            if of is not None and self.is_store(of):
                self.assume("store keys with different value graphs are different keys")
                return SymKey(k.p())
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, Arr) and k.lib in ("np", "jax"):
            raise AbsRaise("TypeError", "unhashable type: array", self.where())
        if isinstance(k, NT):
            k = tuple(k.fields.values())
        if isinstance(k, tuple):
            return tuple(self.hashable(x, of) for x in k)
        if isinstance(k, (Opq, Phi, PList)):
            raise Unsupported("dictionary key")
        return k

    def is_store(self, d):
        if d is True:
            return True
        if any(isinstance(k, str) for k in d.d):
            return False
        if d.d and all(symbolic_key(k) for k in d.d):
            return True
        o = d.cell.origin
        return not d.d or o is not None and o.split(":")[0] in ("global", "function", "memo", "default", "class")

    def ev_JoinedStr(self, e):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value)
                if isinstance(x, str):
                    out += x
                elif is_num(x) and const_int(x) is not None:
                    out += str(const_int(x))
                else:
                    return self.lib.Sym("fstring")
        return out

    def ev_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def ev_Subscript(self, e):
        obj = self.eval(e.value)
        key = self.eval_index(e.slice)
        return self.getitem(obj, key)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    ev_Slice = eval_index

    def ev_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if c is ONE:
            return self.eval(e.body)
        if c is ZERO:
            return self.eval(e.orelse)
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def ev_BoolOp(self, e):
        v = self.eval(e.values[0])
        for nxt in e.values[1:]:
            c = self.truth(v)
            if isinstance(e.op, ast.And):
                if c is ZERO:
                    return v
                if c is ONE:
                    v = self.eval(nxt)
                else:
                    w = self.branch(c, lambda: self.eval(nxt), lambda: False)
                    v = scalar(pmul(c, self.truth(w)), "bool") if self._boolish(v) else self.join(c, w, v)
            else:
                if c is ONE:
                    return v
                if c is ZERO:
                    v = self.eval(nxt)
                else:
                    w = self.branch(c, lambda: True, lambda: self.eval(nxt))
                    v = scalar(b_or(c, self.truth(w)), "bool") if self._boolish(v) else self.join(c, v, w)
        return v

    def _boolish(self, v):
        return isinstance(v, bool) or (isinstance(v, Arr) and v.dt == "bool")

    def ev_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unary(e.op, v)

    def unary(self, op, v):
        if isinstance(v, Phi):
            return self.join(v.c, self.unary(op, v.a), self.unary(op, v.b))
        if isinstance(op, ast.Not):
            return self.lib.boolval(ONE - self.truth(v))
        if isinstance(v, Series):
            return Series(self.unary(op, v.arr), v.index)
        f = self.lib.special(v, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)])
        if f is not None:
            return self.call(f, [v], {})
        if not is_num(v):
            return Opq("unary on " + type(v).__name__)
        if isinstance(op, ast.USub):
            return ew(lambda p: -p, v, dt="int" if arr_of(v).dt == "bool" else arr_of(v).dt)
        if isinstance(op, ast.Invert):
            a = arr_of(v)
            if a.dt == "bool":
                return ew(lambda p: ONE - p, v, dt="bool")
            return ew(lambda p: -p - 1, v)
        return v

    def ev_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b, inplace=False):
        return self.lib.binop(self, op, a, b, inplace)

    def ev_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.lib.compare(self, op, left, right)
            if res is None:
                res = v
            else:
                if is_num(res) and is_num(v):
                    res = ew(pmul, res, v, dt="bool")
                else:
                    res = self.lib.boolval(pmul(self.truth(res), self.truth(v)))
            left = right
        return res

    def ev_Lambda(self, e):
        return self.make_func(e)

    def ev_ListComp(self, e):
        return self.comp(e.generators, lambda: self.eval(e.elt))

    def ev_GeneratorExp(self, e):
        return self.comp(e.generators, lambda: self.eval(e.elt))

    def ev_SetComp(self, e):
        return PSet(list(self.comp(e.generators, lambda: self.eval(e.elt)).items))

    def ev_DictComp(self, e):
        r = self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)))
        return PDict({self.hashable(k): v for k, v in r.items})

    def comp(self, gens, elt):
        outer = self.frames[-1]
        scope = Scope(outer.scope, outer.scope.module)
        fr = Frame(outer.func, scope)
        fr.node = outer.node
        self.frames.append(fr)
        out = []

        def rec(i):
            if i == len(gens):
                out.append(elt())
                return
            g = gens[i]
            kind, seq = self.iterate(self.eval(g.iter))
            if kind != "const":
                n, el = seq
                k = fresh_index(n, "c")
                self.assign(g.target, el(k))
                sub = len(out)
                if g.ifs:
                    raise Unsupported("filtered comprehension over symbolic sequence")
                self.loopstack.append(k)
                try:
                    rec(i + 1)
                finally:
                    self.loopstack.pop()
                items = tuple(out[sub:])
                del out[sub:]
                out.append(Seg(n, k, items))
                return
            for x in seq:
                self.assign(g.target, x)
                ok = True
                for f in g.ifs:
                    c = self.truth(self.eval(f))
                    if c is ZERO:
                        ok = False
                        break
                    if c is not ONE:
                        raise Unsupported("symbolic comprehension filter")
                if ok:
                    rec(i + 1)
        try:
            rec(0)
        finally:
            self.frames.pop()
        return PList(out)

    def ev_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v)
        return v

    def ev_Starred(self, e):
        return self.eval(e.value)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                k, s = self.iterate(self.eval(a.value))
                if k != "const":
                    raise Unsupported("starred symbolic sequence")
                args.extend(s)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.eval(kw.value)
                if isinstance(d, PDict):
                    kwargs.update(d.d)
                else:
                    raise Unsupported("** of unknown mapping")
            else:
                kwargs[kw.arg] = self.eval(kw.value)
        self.frames[-1].node = e
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, Phi):
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, NTClass):
            d = dict(zip(f.fields, args))
            d.update(kwargs)
            if set(d) != set(f.fields):
                raise AbsRaise("TypeError", f"{f.name}() fields", self.where())
            return NT(f.name, {k: d[k] for k in f.fields})
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (Inst, NT)) and f.cls is not None:
            m = self.lib.find_cls_attr(f.cls, "__call__")
            if isinstance(m, Func):
                return self.call_func(m, [f] + list(args), kwargs)
            raise Unsupported("call of an object")
        if isinstance(f, Opq):
            return Opq("call of opaque")
        try:
            if isinstance(f, Prim):
                return self.lib.call_prim(self, f.name, args, kwargs)
            if isinstance(f, Bound):
                if isinstance(f.obj, Phi):
                    o = f.obj
                    return self.branch(o.c, lambda: self.call(self.getattr(o.a, f.name), args, kwargs),
                                       lambda: self.call(self.getattr(o.b, f.name), args, kwargs))
                return self.lib.call_method(self, f.obj, f.name, args, kwargs)
        except Unsupported as e:
            return Opq(f"{f!r}: {e}")
        if isinstance(f, Mod):
            raise AbsRaise("TypeError", "module not callable", self.where())
        return Opq(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kwargs):
        if cls.kind in ("other", "enum"):
            raise Unsupported(f"instance of {cls.name}")
        init = self.lib.find_cls_attr(cls, "__init__")
        if isinstance(init, Func):
            obj = Inst(cls)
            self.call_func(init, [obj] + list(args), kwargs)
            return obj
        if self.lib.find_cls_attr(cls, "__new__") is not None:
            raise Unsupported(f"instance of {cls.name}")
        # annotated fields, those of bases first
        fields = {}
        for c in reversed(list(cls.mro())):
            for st in c.node.body if c.node is not None and cls.kind != "plain" else ():
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
                    fields[st.target.id] = c.scope.vars.get(st.target.id, MISSING_FIELD)
        order = [n for n, v in fields.items() if not (isinstance(v, FieldSpec) and v.kwargs.get("init") is False)]
        if len(args) > len(order) or set(kwargs) - set(order) or set(kwargs) & set(order[:len(args)]):
            raise AbsRaise("TypeError", f"arguments of {cls.name}()", self.where())
        d = dict(zip(order, args))
        d.update(kwargs)
        out = {}
        for n, v in fields.items():
            if n in d:
                out[n] = d[n]
            elif isinstance(v, FieldSpec):
                if "default_factory" in v.kwargs:
                    out[n] = self.call(v.kwargs["default_factory"], [], {})
                elif "default" in v.kwargs:
                    out[n] = v.kwargs["default"]
                elif n in order:
                    raise AbsRaise("TypeError", f"{cls.name}() missing argument {n!r}", self.where())
            elif v is MISSING_FIELD:
                raise AbsRaise("TypeError", f"{cls.name}() missing argument {n!r}", self.where())
            else:
                out[n] = v
        if cls.kind == "namedtuple":
            return NT(cls.name, out, cls)
        obj = Inst(cls)
        obj.cell.set(out)
        post = self.lib.find_cls_attr(cls, "__post_init__")
        if isinstance(post, Func):
            self.call_func(post, [obj], {})
        return obj

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            raise AbsRaise("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given", self.where())
        kw = dict(kwargs)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise AbsRaise("TypeError", f"{f.name}() got multiple values for argument {k!r}", self.where())
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise AbsRaise("TypeError", f"{f.name}() got an unexpected keyword argument {k!r}", self.where())
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    raise AbsRaise("TypeError", f"{f.name}() missing argument {n!r}", self.where())
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults:
                    out[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise AbsRaise("TypeError", f"{f.name}() missing keyword argument {x.arg!r}", self.where())
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            out[a.kwarg.arg] = PDict(rest)
        return out

    def call_func(self, f, args, kwargs):
        qual = f"{f.module.name}.{f.name}"
        stub = self.stubs.get(qual) or self.stubs.get(f.name)
        if stub is not None:
            r = stub(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Unsupported("call depth")
        bound = self.bind(f, args, kwargs)
        self.funcs.add((f.module.name, f.name))
        caller = self.frames[-1].func.name if self.frames and self.frames[-1].func else "<entry>"
        self.calls.append((caller, f.name))
        scope = Scope(f.scope, f.module, origin=self.default_origin)
        scope.vars.update(bound)
        fr = Frame(f, scope)
        fr.node = f.node
        save_origin = self.default_origin
        if save_origin is not None and save_origin.startswith("global:") and self.frames and self.frames[-1].func is not None:
            pass
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
                raise Unsupported("generator")
            try:
                self.exec_block(f.node.body)
            except AbsRaise as e:
                if not fr.exits:
                    raise
                self.in_try(e.exc)
                self.event("raise", exc=e.exc, msg=e.msg, loc=e.loc)
                fr.pc = ZERO
        except Unsupported as e:
            self.unmodelled.append((str(e), self.where()))
            for v in bound.values():
                self.havoc_value(v, str(e))
            return Opq(str(e))
        finally:
            self.frames.pop()
            self.depth -= 1
        exits = list(fr.exits)
        if not exits:
            if fr.pc is ZERO:
                raise AbsRaise("Exception", "no return", self.where())
            return None
        if fr.pc is not ZERO:
            exits.append((fr.pc, None))
        g, v = exits[-1]
        for g2, v2 in reversed(exits[:-1]):
            v = self.join(g2, v2, v)
        return v

    # ---------------------------------------------------------------- attributes, items
    def getattr(self, o, name):
        if isinstance(o, Phi):
            return self.join(o.c, self.getattr(o.a, name), self.getattr(o.b, name))
        return self.lib.getattr_(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if getattr(o, "joined", False):
                raise Unsupported("attribute store on one of two objects")
            self.on_mutate(o.cell, f"attribute {name}")
            d = dict(o.cell.state)
            d[name] = v
            o.cell.set(d)
            return
        if isinstance(o, ClassObj):
            self.event("mutate", origin=f"class:{o.name}", what=f"attribute {name}")
            d = dict(o.attrs.state)
            d[name] = v
            o.attrs.set(d)
            return
        if isinstance(o, Func):
            self.event("mutate", origin=f"function:{o.name}", what=f"attribute {name}")
            d = dict(o.attrs.state)
            d[name] = v
            o.attrs.set(d)
            return
        if isinstance(o, NT):
            raise AbsRaise("AttributeError", f"can't set attribute {name}", self.where())
        if isinstance(o, Mod):
            self.event("mutate", origin=f"module:{o.name}", what=f"attribute {name}")
            if o.name in self.modules:
                self.setvar(self.modules[o.name].scope, name, v)
            return
        if isinstance(o, DF) and name == "columns":
            kind, labels = self.iterate(v)
            self.on_mutate(o.cell, "columns renamed")
            o.cell.set((dict(zip(labels, o.cols.values())), o.n))
            return
        if isinstance(o, DF) and name in o.cols:
            return self.setitem(o, name, v)
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported(f"attribute store on {type(o).__name__}")

    def getitem(self, o, key):
        if isinstance(o, Phi):
            return self.join(o.c, self.getitem(o.a, key), self.getitem(o.b, key))
        if isinstance(o, Opq):
            return Opq("item of opaque")
        try:
            return self.lib.getitem_(self, o, key)
        except Unsupported as e:
            return Opq(str(e))

    def setitem(self, o, key, v):
        if isinstance(o, Phi):
            self.branch(o.c, lambda: self.setitem(o.a, key, v), lambda: self.setitem(o.b, key, v))
            return
        if isinstance(o, Opq):
            return
        self.lib.setitem_(self, o, key, v)


class _HavocList:
    def __repr__(self):
        return "<earlier items>"


HAVOC_LIST = _HavocList()
