"""pandas: frames of named columns over one (symbolic) row dimension, and the labelled parameter table."""
from .poly import *
from . import poly as pl
from . import values as V
from .values import *
from .lib import prim, method, PRIMS, METHODS, to_arr, Sym, Acc, boolval, bools, compare_vals, arr_binop, SymIter
from . import lib as L


# ------------------------------------------------------------------ helpers
def as_name(I, k):
    if isinstance(k, (str, Sym)):
        return k
    c = const_int(k) if is_num(k) else None
    return c if c is not None else k


def names_of(I, v):
    """list of column names or None"""
    if isinstance(v, Idx) and v.names == ["columns"]:
        return list(v.levels[0])
    if isinstance(v, (PList, tuple, PSet)):
        items = v if isinstance(v, tuple) else v.items
        if all(isinstance(x, (str, Sym)) for x in items):
            return list(items)
    return None


def col_of(I, df, name):
    if name in df.cols:
        return df.cols[name]
    raise AbsRaise("KeyError", repr(name), I.where())


def column(I, v, n):
    """value -> column array of length n"""
    if isinstance(v, Opq):
        nm = I.uid("opqcol:")
        declare(nm, opaque=True)
        return Arr((n,), lambda j: leaf(nm, *I.loopstack, j), "float", "np")
    a = to_arr(I, v)
    if not a.shape:
        p = a.p()
        return Arr((n,), lambda j: p, a.dt, "np")
    if a.ndim == 2 and a.shape[1] is ONE:
        f = a.fn()
        return Arr((a.shape[0],), lambda j: f(j, ZERO), a.dt, "np")
    if a.ndim != 1:
        raise Unsupported("column of higher dimension")
    if n is not None and not dim_eq(a.shape[0], n):
        if a.shape[0].is_const() and n.is_const():
            raise AbsRaise("ValueError", f"column length {a.shape[0]} does not match {n}", I.where())
        I.assume(f"dimension {a.shape[0]} == {n}")
    f = a.fn()
    return Arr((n if n is not None else a.shape[0],), f, a.dt, "np")


def take_rows(df, n2, src):
    cols = {}
    for c, a in df.cols.items():
        cols[c] = Arr((n2,), lambda i, f=a.fn(): f(src(i)), a.dt, "np")
    idx = None
    if df.index:
        idx = {k: Arr((n2,), lambda i, f=a.fn(): f(src(i)), a.dt, "np") for k, a in df.index.items()}
    r = DF(cols, n2, index=idx)
    return r


def row_sel(I, key, n, index):
    """row selector -> ('all',) | ('int', P) | ('take', n2, src)"""
    if isinstance(key, Slice):
        if key.start is None and key.stop is None and key.step is None:
            return ("all",)
        st, ln, step = slice_params(key, n)
        return ("take", ln, lambda i: st + (i if step == 1 else i * step))
    if isinstance(key, Series):
        key = key.arr
    if isinstance(key, (PList, Rng)):
        key = to_arr(I, key)
    if isinstance(key, Idx):
        key = to_arr(I, idx_arr(I, key))
    if isinstance(key, Arr) or is_num(key):
        a = arr_of(key)
        if a.ndim == 1 and a.dt == "bool":
            if not dim_eq(a.shape[0], n):
                I.assume(f"dimension {a.shape[0]} == {n}")
            body = V.mask_body(a.fn(), n)
            cnt = V.mk_count(body, n)
            return ("take", cnt, lambda i: V.mk_sel(body, n, i))
        if a.ndim == 1:
            f = a.fn()
            return ("take", a.shape[0], lambda i: wrap_neg(f(i), n))
        if a.ndim == 0 and a.dt != "bool":
            return ("int", wrap_neg(a.p(), n))
    raise Unsupported(f"row selector {type(key).__name__}")


def mask_arr(I, key, n):
    """boolean row mask for a store"""
    if isinstance(key, Slice) and key.start is None and key.stop is None:
        return lambda *i: ONE
    if isinstance(key, Series):
        key = key.arr
    a = to_arr(I, key)
    if a.ndim == 1 and a.dt == "bool":
        return a.fn()
    if a.ndim == 0:
        p = wrap_neg(a.p(), n)
        return lambda j: eq(j - p)
    raise Unsupported("row selector of a store")


def label_rows(I, df, key):
    """label selector on the index levels of a frame"""
    if isinstance(key, tuple) and df.index:
        m = None
        for part, (nm, lev) in zip(key, df.index.items()):
            if isinstance(part, Slice):
                if part.start is None and part.stop is None:
                    continue
                f = lev.fn()
                lo = None if part.start is None else arr_of(part.start).p()
                hi = None if part.stop is None else arr_of(part.stop).p()

                def c(i, f=f, lo=lo, hi=hi):
                    r = ONE
                    if lo is not None:
                        r = pmul(r, ge(f(i) - lo))
                    if hi is not None:
                        r = pmul(r, ge(hi - f(i)))
                    return r
                cond = Arr((df.n,), c, "bool", "np")
            elif isinstance(part, Rng):
                v = L.contains
                f = lev.fn()
                cond = Arr((df.n,), lambda i, f=f, part=part: I.truth(L.contains(I, part, scalar(f(i), "int"))), "bool", "np")
            elif isinstance(part, (PList, tuple)) or isinstance(part, Arr) and part.ndim == 1:
                cond = PRIMS["np.isin"](I, lev, part)
            else:
                cond = compare_vals(I, "eq", lev, part)
            m = cond if m is None else ew(pmul, m, cond, dt="bool")
        if m is None:
            return ("all",)
        return row_sel(I, m, df.n, df.index)
    if df.index and not isinstance(key, tuple) and not (isinstance(key, (Series, Arr)) and getattr(arr_of(getattr(key, "arr", key)), "dt", "") == "bool"):
        first = next(iter(df.index.values()))
        if isinstance(key, (Rng, PList)):
            f = first.fn()
            return row_sel(I, Arr((df.n,), lambda i: I.truth(L.contains(I, key, scalar(f(i), "int"))), "bool", "np"), df.n, df.index)
        if is_num(key) and not arr_of(key).shape:
            return row_sel(I, compare_vals(I, "eq", first, key), df.n, df.index)
        if isinstance(key, Slice):
            return label_rows(I, df, (key,))
    if isinstance(key, Slice) and not (key.start is None and key.stop is None) and df.index is None:
        # label slice over a default index includes the end
        stop = None if key.stop is None else scalar(arr_of(key.stop).p() + 1)
        return row_sel(I, Slice(key.start, stop, key.step), df.n, None)
    return row_sel(I, key, df.n, df.index)


def apply_rows(I, df, sel):
    if sel[0] == "all":
        return df_copy(df)
    if sel[0] == "int":
        return LabelSeries({(c,) if not isinstance(c, tuple) else c: a.at(sel[1]) for c, a in df.cols.items()}, ["column"])
    return take_rows(df, sel[1], sel[2])


def df_copy(df):
    r = DF({c: a.copy(lib="np") for c, a in df.cols.items()}, df.n, index=dict(df.index) if df.index else None)
    return r


def series_take(s, sel):
    if sel[0] == "all":
        return Series(s.arr, s.index, s.name)
    f = s.arr.fn()
    if sel[0] == "int":
        return Arr((), lambda: f(sel[1]), s.arr.dt, "np")
    idx = {k: Arr((sel[1],), lambda i, g=a.fn(): g(sel[2](i)), a.dt, "np") for k, a in s.index.items()} if s.index else None
    return Series(Arr((sel[1],), lambda i: f(sel[2](i)), s.arr.dt, "np"), idx, s.name)


def col_sel(I, df, key, positional):
    """column selector -> list of names, single flag"""
    names = list(df.cols)
    if isinstance(key, Slice):
        if key.start is None and key.stop is None:
            return names, False
        if positional:
            b = [None if x is None else const_int(x) for x in (key.start, key.stop, key.step)]
            return names[b[0]:b[1]:b[2]], False
        i0 = names.index(key.start) if key.start is not None else 0
        i1 = names.index(key.stop) + 1 if key.stop is not None else len(names)
        return names[i0:i1], False
    if positional:
        c = const_int(key)
        if c is not None:
            try:
                return [names[c]], True
            except IndexError:
                raise AbsRaise("IndexError", "single positional indexer is out-of-bounds", I.where())
        if isinstance(key, (PList, tuple)):
            return [names[const_int(x)] for x in (key if isinstance(key, tuple) else key.items)], False
        raise Unsupported("symbolic column position")
    lst = names_of(I, key)
    if lst is not None:
        for x in lst:
            col_of(I, df, x)
        return lst, False
    k = as_name(I, key)
    col_of(I, df, k)
    return [k], True


def series_index(df):
    return df.index


# ------------------------------------------------------------------ item access
def acc_get(I, acc, key):
    o = acc.obj
    if isinstance(o, LabelDF):
        return label_get(I, o, key, acc.kind)
    if isinstance(o, LabelSeries):
        return lseries_get(I, o, key, acc.kind)
    pos = acc.kind in ("iloc", "iat")
    if isinstance(o, Series):
        if pos or o.index is None:
            if not pos and isinstance(key, Slice):
                raise Unsupported("label slice of a series")
            return series_take(o, row_sel(I, key, o.arr.shape[0], o.index))
        df = DF({"v": o.arr}, o.arr.shape[0], index=o.index)
        sel = label_rows(I, df, key)
        return series_take(o, sel)
    if isinstance(o, DF):
        if isinstance(key, tuple) and len(key) == 2 and not (not pos and o.index and len(o.index) == 2 and not isinstance(key[0], tuple)
                                                              and not _looks_like_cols(I, o, key[1])):
            cols, single = col_sel(I, o, key[1], pos)
            sub = DF({c: o.cols[c] for c in cols}, o.n, index=o.index)
            rk = key[0]
            sel = row_sel(I, rk, o.n, o.index) if pos else label_rows(I, o, rk)
            if single:
                return series_take(Series(o.cols[cols[0]], o.index, cols[0]), sel)
            return apply_rows(I, sub, sel)
        sel = row_sel(I, key, o.n, o.index) if pos else label_rows(I, o, key)
        return apply_rows(I, o, sel)
    raise Unsupported(f"{acc.kind} of {type(o).__name__}")


def _looks_like_cols(I, df, k):
    if isinstance(k, str):
        return k in df.cols
    if isinstance(k, Slice):
        return k.start is None and k.stop is None
    return names_of(I, k) is not None


def pd_get(I, o, key):
    if isinstance(o, DF):
        lst = names_of(I, key)
        if lst is not None and not isinstance(key, tuple):
            return DF({c: col_of(I, o, c) for c in lst}, o.n, index=o.index)
        if isinstance(key, (str, Sym)):
            return Series(col_of(I, o, key), o.index, key)
        if isinstance(key, (Arr, Series)):
            return apply_rows(I, o, row_sel(I, key, o.n, o.index))
        if isinstance(key, Slice):
            return apply_rows(I, o, row_sel(I, key, o.n, o.index))
        k = as_name(I, key)
        return Series(col_of(I, o, k), o.index, k)
    if isinstance(o, Series):
        if isinstance(key, Slice):
            return series_take(o, row_sel(I, key, o.arr.shape[0], o.index))
        if isinstance(key, (Arr, Series)) and arr_of(getattr(key, "arr", key)).dt == "bool" and arr_of(getattr(key, "arr", key)).ndim:
            return series_take(o, row_sel(I, key, o.arr.shape[0], o.index))
        if o.index is None:
            return V.getitem(o.arr, L.conv_key(I, key))
        return acc_get(I, Acc(o, "loc"), key)
    if isinstance(o, LabelDF):
        if key == o.col:
            return LabelSeries(o.rows, o.names)
        if isinstance(key, PList) and list(key.items) == [o.col]:
            return o
        if isinstance(key, tuple) and len(key) == 1 and key[0] == o.col:
            return LabelSeries(o.rows, o.names)
        if isinstance(key, (PList, tuple, Series, Arr)):
            return label_mask(I, o, key)
        raise AbsRaise("KeyError", repr(key), I.where())
    if isinstance(o, LabelSeries):
        return lseries_get(I, o, key, "loc")
    if isinstance(o, Idx):
        lv = o.levels[0]
        if isinstance(lv, tuple):
            return I.getitem(lv, key)
        if isinstance(lv, LabelDF):
            return I.getitem(tuple(k if len(k) > 1 else k[0] for k in lv.rows), key)
        return V.getitem(idx_arr(I, o), key)
    raise Unsupported("pandas item")


def idx_arr(I, ix, level=0):
    lv = ix.levels[0]
    if isinstance(lv, dict):
        return list(lv.values())[level]
    if isinstance(lv, Arr):
        return lv
    if lv is None:
        raise Unsupported("default index")
    raise Unsupported("label index as array")


def label_mask(I, o, key):
    items = key.items if isinstance(key, PList) else key if isinstance(key, tuple) else None
    if isinstance(key, (Arr, Series)):
        m = key.arr if isinstance(key, Series) else key
        if m.dt != "bool" or m.ndim != 1 or const_int(m.shape[0]) != len(o.rows):
            raise Unsupported("mask on the parameter table")
        items = [m.at(C(i)) for i in range(len(o.rows))]
    if items is None:
        raise Unsupported("mask on the parameter table")
    if all(isinstance(x, str) for x in items):
        raise AbsRaise("KeyError", repr(items), I.where())
    rows = {}
    for (k, v), c in zip(o.rows.items(), items):
        t = I.truth(c)
        if t is ONE:
            rows[k] = v
        elif t is not ZERO:
            raise Unsupported("symbolic mask on the parameter table")
    return LabelDF(rows, o.col, o.names)


def label_get(I, o, key, kind):
    if kind in ("iloc", "iat"):
        c = const_int(key) if is_num(key) else None
        rows = list(o.rows.items())
        if c is not None:
            return LabelSeries({(o.col,): rows[c][1]}, ["column"])
        if isinstance(key, Slice):
            b = [None if x is None else const_int(x) for x in (key.start, key.stop, key.step)]
            return LabelDF(dict(rows[b[0]:b[1]:b[2]]), o.col, o.names)
        if isinstance(key, tuple) and len(key) == 2 and is_num(key[0]) and const_int(key[1]) == 0:
            return scalar(rows[const_int(key[0])][1])
        raise Unsupported("iloc on the parameter table")
    colsel = None
    k = key
    nlev = len(o.names)
    if isinstance(key, tuple):
        if len(key) == 2 and (key[1] == o.col or isinstance(key[1], Slice) or isinstance(key[1], PList)) and not (nlev == 2 and isinstance(key[0], str) and isinstance(key[1], str) and (key[0], key[1]) in o.rows):
            k, colsel = key[0], key[1]
    if isinstance(k, (Arr, Series)):
        r = label_mask(I, o, k)
        if colsel is None or not isinstance(colsel, str):
            return r
        if colsel != o.col:
            raise AbsRaise("KeyError", repr(colsel), I.where())
        return LabelSeries(r.rows, r.names)
    if isinstance(k, Slice):
        if k.start is None and k.stop is None:
            sub = dict(o.rows)
        else:
            raise Unsupported("label slice on the parameter table")
        names = o.names
    elif isinstance(k, PList):
        sub = {kk: v for kk, v in o.rows.items() if any((x,) == kk[:1] or x == kk or x == kk[0] for x in k.items)}
        names = o.names
    else:
        parts = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, Slice) for x in parts):
            sub = {kk: v for kk, v in o.rows.items() if all(isinstance(x, Slice) or x == y for x, y in zip(parts, kk))}
            names = o.names
        else:
            parts = tuple(as_name(I, x) for x in parts)
            hit = {kk: v for kk, v in o.rows.items() if kk[:len(parts)] == parts}
            if not hit:
                raise AbsRaise("KeyError", repr(key), I.where())
            if len(parts) == nlev:
                p = next(iter(hit.values()))
                if colsel == o.col:
                    return scalar(p, "float", "np")
                return LabelSeries({(o.col,): p}, ["column"])
            sub = {kk[len(parts):]: v for kk, v in hit.items()}
            names = o.names[len(parts):]
    if isinstance(colsel, str):
        if colsel != o.col:
            raise AbsRaise("KeyError", repr(colsel), I.where())
        return LabelSeries(sub, names)
    return LabelDF(sub, o.col, names)


def lseries_get(I, o, key, kind):
    rows = list(o.rows.items())
    if kind in ("iloc", "iat"):
        c = const_int(key) if is_num(key) else None
        if c is not None:
            try:
                return scalar(rows[c][1], "float", "np")
            except IndexError:
                raise AbsRaise("IndexError", "positional", I.where())
        if isinstance(key, Slice):
            b = [None if x is None else const_int(x) for x in (key.start, key.stop, key.step)]
            return LabelSeries(dict(rows[b[0]:b[1]:b[2]]), o.names)
        raise Unsupported("series position")
    if isinstance(key, Slice):
        return lseries_get(I, o, key, "iloc")
    if isinstance(key, (Arr, Series)) and (key.arr if isinstance(key, Series) else key).dt == "bool":
        r = label_mask(I, LabelDF(o.rows, "value", o.names), key)
        return LabelSeries(r.rows, r.names)
    if isinstance(key, PList):
        if all(isinstance(x, str) for x in key.items):
            out = {}
            for x in key.items:
                if (x,) not in o.rows:
                    raise AbsRaise("KeyError", repr(x), I.where())
                out[(x,)] = o.rows[(x,)]
            return LabelSeries(out, o.names)
        if len(key.items) == len(rows):
            out = {}
            for (k, v), c in zip(rows, key.items):
                t = I.truth(c)
                if t is ONE:
                    out[k] = v
                elif t is not ZERO:
                    raise Unsupported("symbolic mask")
            return LabelSeries(out, o.names)
    parts = key if isinstance(key, tuple) else (key,)
    parts = tuple(as_name(I, x) for x in parts)
    if parts in o.rows:
        return scalar(o.rows[parts], "float", "np")
    hit = {k[len(parts):]: v for k, v in o.rows.items() if k[:len(parts)] == parts}
    if hit:
        return LabelSeries(hit, (o.names or [])[len(parts):])
    c = const_int(key) if is_num(key) else None
    if c is not None and -len(rows) <= c < len(rows):
        return scalar(rows[c][1], "float", "np")
    raise AbsRaise("KeyError", repr(key), I.where())


def set_column(I, df, name, arr, inplace=False):
    I.on_mutate(df.cell, f"column {name!r} written")
    cols = dict(df.cols)
    old = cols.get(name)
    if inplace and old is not None and old.dt == arr.dt and old.tobase is None and old.lib != "jax":
        f = arr.fn()
        old.store(lambda *i: ONE, lambda *i: f(*i))
        return
    cols[name] = arr
    df.cell.set((cols, df.n))


def pd_set(I, o, key, v):
    if isinstance(o, Acc):
        base = o.obj
        pos = o.kind in ("iloc", "iat")
        if isinstance(base, Series):
            m = mask_arr(I, key, base.arr.shape[0])
            x = to_arr(I, v)
            f = x.fn()
            base.arr.store(m, (lambda *i: cast_p(f(), x.dt, base.arr.dt)) if not x.shape else (lambda *i: f(*i)))
            return
        if isinstance(base, LabelDF):
            return label_set(I, base, key, v)
        if not isinstance(base, DF):
            raise Unsupported("store through " + o.kind)
        if isinstance(key, tuple) and len(key) == 2:
            rk, ck = key
        else:
            rk, ck = key, Slice(None, None, None)
        if not pos and isinstance(ck, (str, Sym)) and ck not in base.cols:
            # new column, missing outside the mask
            m = mask_arr(I, rk, base.n)
            x = column(I, v, base.n)
            f = x.fn()
            set_column(I, base, ck, Arr((base.n,), lambda j: select(m(j), f(j), leaf("nan")), "float", "np"))
            return
        cols, single = col_sel(I, base, ck, pos)
        if isinstance(v, DF):
            vals = [v.cols[c] for c in cols] if all(c in v.cols for c in cols) else list(v.cols.values())
        elif isinstance(v, Opq):
            vals = [column(I, v, base.n) for _ in cols]
        else:
            a = to_arr(I, v)
            if a.ndim == 2:
                vals = [Arr((a.shape[0],), lambda j, f=a.fn(), c=c: f(j, C(c)), a.dt, "np") for c in range(len(cols))]
            else:
                vals = [a] * len(cols)
        full = isinstance(rk, Slice) and rk.start is None and rk.stop is None
        for c, x in zip(cols, vals):
            if full:
                set_column(I, base, c, column(I, x, base.n), inplace=True)
                continue
            m = mask_arr(I, rk, base.n)
            old = base.cols[c]
            fo, f = old.fn(), x.fn()
            if not x.shape:
                val = lambda j, f=f: f()
            elif dim_eq(x.shape[0], base.n):
                val = f
            else:
                body = V.mask_body(m, base.n)
                val = lambda j, f=f, body=body: f(V.mk_rank(body, base.n, j))
            dt = promote(old.dt, x.dt)
            set_column(I, base, c, Arr((base.n,), lambda j, m=m, val=val, fo=fo: tidy(select(m(j), val(j), fo(j))), dt, "np"), inplace=dt == old.dt)
        return
    if isinstance(o, DF):
        lst = names_of(I, key)
        if lst is not None and not isinstance(key, (str, tuple)):
            if isinstance(v, DF):
                vals = list(v.cols.values())
            else:
                a = to_arr(I, v)
                vals = [Arr((a.shape[0],), lambda j, f=a.fn(), c=c: f(j, C(c)), a.dt, "np") for c in range(len(lst))] if a.ndim == 2 else [a] * len(lst)
            for c, x in zip(lst, vals):
                set_column(I, o, c, column(I, x, o.n))
            return
        if isinstance(key, (Arr, Series)) and arr_of(getattr(key, "arr", key)).dt == "bool":
            m = mask_arr(I, key, o.n)
            x = to_arr(I, v).p()
            for c, a in list(o.cols.items()):
                fo = a.fn()
                set_column(I, o, c, Arr((o.n,), lambda j, fo=fo: tidy(select(m(j), x, fo(j))), a.dt, "np"))
            return
        set_column(I, o, as_name(I, key), column(I, v, o.n))
        return
    if isinstance(o, Series):
        return pd_set(I, Acc(o, "loc"), key, v)
    if isinstance(o, LabelDF):
        raise Unsupported("column store on the parameter table")
    raise Unsupported(f"item store on {type(o).__name__}")


def label_set(I, o, key, v):
    parts = key
    if isinstance(key, tuple) and len(key) == 2 and (key[1] == o.col or isinstance(key[1], Slice)):
        parts = key[0]
    parts = parts if isinstance(parts, tuple) else (parts,)
    I.on_mutate(o.cell, f"label {parts!r} written")
    p = to_arr(I, v).p()
    rows = dict(o.rows)
    hit = [k for k in rows if k[:len(parts)] == parts]
    for k in hit or [parts]:
        rows[k] = p
    o.cell.set(rows)


# ------------------------------------------------------------------ constructors
@prim("pd.read_pickle", "pd.read_csv", "pd.read_parquet", "pd.read_excel")
def read_table(I, path, *a, **kw):
    key = path.name if isinstance(path, Sym) else path
    I.event("file-read", name=str(key))
    f = I.files.get(key)
    if f is None:
        raise Unsupported(f"file {key!r}")
    return f()


def plain_index(I, index, data):
    """is it the default index 0, 1, …, or the index of another frame?"""
    if index is None or isinstance(index, (Idx, Rng)) or isinstance(data, (DF, Series)) and index is None:
        return True
    if isinstance(index, (PList, tuple)):
        items = index if isinstance(index, tuple) else index.items
        return not items or all(is_num(x) and const_int(x) == k for k, x in enumerate(items))
    if isinstance(index, Arr) and index.ndim == 1:
        i = leaf("row_")
        return not (index.at(i) - i).t
    return False


@prim("pd.DataFrame")
def mk_df(I, data=None, index=None, columns=None, dtype=None, copy=None):
    idx = None
    if isinstance(index, Idx) and isinstance(index.levels[0], dict):
        idx = index.levels[0]
    elif not plain_index(I, index, data):
        raise Unsupported("frame with row labels")
    if data is None:
        names = names_of(I, columns) or []
        n = ZERO
        if idx:
            n = next(iter(idx.values())).shape[0]
        return DF({c: Arr((n,), lambda j: leaf("nan"), "float", "np") for c in names}, n, index=idx)
    if isinstance(data, DF):
        r = df_copy(data)
        return r if columns is None else pd_get(I, r, columns)
    if isinstance(data, PDict):
        arrs = {k: (None if isinstance(v, Opq) else to_arr(I, v)) for k, v in data.d.items()}
        n = None
        for a in arrs.values():
            if a is not None and a.shape:
                n = a.shape[0] if n is None or not n.is_const() and a.shape[0].is_const() else n
        if n is None:
            n = ONE
        cols = {k: column(I, data.d[k] if a is None else a, n) for k, a in arrs.items()}
        names = names_of(I, columns)
        if names is not None:
            cols = {c: cols[c] if c in cols else Arr((n,), lambda j: leaf("nan"), "float", "np") for c in names}
        return cast_df(I, DF(cols, n, index=idx), dtype)
    a = to_arr(I, data)
    if a.ndim == 1:
        f = a.fn()
        a = Arr((a.shape[0], 1), lambda j, c: f(j), a.dt, "np")
    nc = const_int(a.shape[1])
    if nc is None:
        raise Unsupported("symbolic column count")
    names = names_of(I, columns) or list(range(nc))
    if len(names) != nc:
        raise AbsRaise("ValueError", "columns do not match the data", I.where())
    f = a.fn()
    return cast_df(I, DF({nm: Arr((a.shape[0],), lambda j, c=c: f(j, C(c)), a.dt, "np") for c, nm in enumerate(names)}, a.shape[0], index=idx), dtype)


def dt_of(I, d):
    from .lib_np import dtype_of
    return dtype_of(d)


def cast_df(I, df, dtype):
    if dtype is None:
        return df
    d = dt_of(I, dtype)
    return df.with_cols({c: astype(a, d) for c, a in df.cols.items()})


@prim("pd.Series")
def mk_series(I, data=None, index=None, dtype=None, name=None, copy=None):
    if isinstance(data, Series):
        r = Series(data.arr, data.index, name or data.name)
    elif isinstance(data, PDict):
        return LabelSeries({(k,) if not isinstance(k, tuple) else k: to_arr(I, v).p() for k, v in data.d.items()}, ["index"])
    else:
        idx = index.levels[0] if isinstance(index, Idx) and isinstance(index.levels[0], dict) else None
        if idx is None and not plain_index(I, index, data):
            raise Unsupported("series with labels")
        r = Series(to_arr(I, data), idx, name)
    if dtype is not None:
        r = Series(astype(r.arr, dt_of(I, dtype)), r.index, r.name)
    return r


@prim("pd.concat")
def concat(I, objs, axis=0, ignore_index=False, join="outer", keys=None, sort=False, verify_integrity=False, copy=None, **kw):
    from .interp import Concat
    if isinstance(axis, str):
        axis = {"index": 0, "rows": 0, "columns": 1}[axis]
    else:
        axis = const_int(axis)
    if isinstance(objs, (PList, tuple)):
        items = list(objs if isinstance(objs, tuple) else objs.items)
    elif isinstance(objs, PDict):
        items = list(objs.d.values())
    else:
        raise Unsupported("concat of " + type(objs).__name__)
    items = [x for x in items if x is not None]
    if axis == 1:
        cols, n, idx = {}, None, None
        for x in items:
            if isinstance(x, Series):
                x = DF({x.name if x.name is not None else len(cols): x.arr}, x.arr.shape[0], index=x.index)
            if not isinstance(x, DF):
                raise Unsupported("concat axis 1")
            n = x.n if n is None else n
            idx = idx or x.index
            for c, a in x.cols.items():
                cols[c] = column(I, a, n)
        return DF(cols, n, index=idx)

    def frames(items):
        for x in items:
            if isinstance(x, Seg):
                yield from frames(x.items)
            else:
                yield x
    fl = list(frames(items))
    if fl and all(isinstance(x, Series) for x in fl) and not any(isinstance(x, Seg) for x in items):
        return Series(L.concat_arrs([x.arr for x in fl]), None, fl[0].name)
    if not fl or not all(isinstance(x, DF) for x in fl):
        if any(isinstance(x, Opq) for x in fl):
            return next(x for x in fl if isinstance(x, Opq))
        raise Unsupported("concat of other objects")
    if len(items) == 1 and not isinstance(items[0], Seg):
        return df_copy(items[0])
    prefix = I.uid("cat#")
    names = []
    for x in fl:
        for c in x.cols:
            if c not in names:
                names.append(c)
    ls = tuple(I.loopstack)
    nn = prefix + ".n"
    declare(nn, isint=True, lb=F(0))
    n = leaf(nn, *ls)
    cols = {}
    for c in names:
        dts = [x.cols[c].dt if c in x.cols else "float" for x in fl]
        dt = promote(*dts)
        nm = f"{prefix}.{c}"
        I.hinted(c, nm, dt in INTS)
        cols[c] = Arr((n,), lambda j, nm=nm: leaf(nm, *ls, j), dt, "np")
    r = DF(cols, n)
    r.meta["concat"] = prefix
    parts = [[x, None] for x in items]
    I.concats[prefix] = Concat(prefix, parts, I.where())
    I.concats[prefix].loops = ls
    I.concats[prefix].n = n
    I.concats[prefix].cols = names
    I.concats[prefix].ignore_index = ignore_index
    return r


@prim("pd.cut")
def cut(I, x, bins, right=True, labels=None, retbins=False, precision=3, include_lowest=False, duplicates="raise", ordered=True):
    idx = x.index if isinstance(x, Series) else None
    a = to_arr(I, x)
    bv = to_arr(I, bins)
    nb = const_int(bv.shape[0]) if bv.ndim == 1 else None
    if nb is None:
        raise Unsupported("pd.cut with symbolic bins")
    edges = [bv.at(C(k)) for k in range(nb)]
    if labels is None:
        raise Unsupported("pd.cut interval labels")
    codes = isinstance(labels, bool) and labels is False
    if codes:
        labs = [C(k) for k in range(nb - 1)]
        codeset = True
    else:
        items = labels if isinstance(labels, tuple) else I.iterate(labels)[1]
        if len(items) != nb - 1:
            raise AbsRaise("ValueError", "Bin labels must be one fewer than the number of bin edges", I.where())
        labs = [arr_of(v).p() for v in items]
    incl = isinstance(include_lowest, bool) and include_lowest
    r = I.truth(right)

    def f(*i):
        v = a.at(*i)
        acc, hit = ZERO, ZERO
        for k in range(nb - 1):
            lo, hi = edges[k], edges[k + 1]
            if r is ONE:
                c = pmul(ge(v - lo) if (k == 0 and incl) else gt(v - lo), ge(hi - v))
            elif r is ZERO:
                c = pmul(ge(v - lo), gt(hi - v))
            else:
                raise Unsupported("pd.cut right")
            acc = acc + pmul(c, labs[k])
            hit = hit + c
        return tidy(acc + pmul(ONE - hit, leaf("nan")))
    out = Arr(a.shape, f, "int" if all(q.isint() for q in labs) else "float", "np")
    s = Series(out, idx, None)
    return s if isinstance(x, Series) else s


@prim("pd.isna", "pd.isnull")
def isna(I, x):
    return L.compare_vals(I, "ne", x, x) if isinstance(x, Series) else PRIMS["np.isnan"](I, x)


@prim("pd.notna", "pd.notnull")
def notna(I, x):
    return I.unary(__import__("ast").Invert(), isna(I, x))


@prim("pd.MultiIndex.from_product")
def from_product(I, iterables, names=None, **kw):
    arrs = [to_arr(I, x) for x in I.iterate(iterables)[1]]
    nms = [str(x) for x in I.iterate(names)[1]] if names is not None else list(range(len(arrs)))
    n = ONE
    for a in arrs:
        n = pmul(n, a.shape[0])
    out = {}
    rest = n
    for nm, a in zip(nms, arrs):
        inner = exact_div(rest, a.shape[0])
        if inner is None:
            raise Unsupported("index product")

        def g(r, a=a, inner=inner):
            q = divmod_p(r, inner)[0] if inner is not ONE else r
            return a.at(divmod_p(q, a.shape[0])[1])
        out[nm] = Arr((n,), g, a.dt, "np")
        rest = inner
    return Idx([out], ["frame"])


@prim("pd.Index", "pd.RangeIndex")
def mk_index(I, *a, **kw):
    raise Unsupported("pd.Index")


# ------------------------------------------------------------------ frame methods
@method("DF", "copy", "infer_objects", "convert_dtypes")
def df_copy_m(I, o, deep=True):
    if isinstance(deep, bool) and not deep:
        return DF(o.cols, o.n, index=o.index)
    return df_copy(o)


@method("DF", "to_numpy")
def df_to_numpy(I, o, dtype=None, copy=False, na_value=None):
    a = to_arr(I, o)
    return astype(a, dt_of(I, dtype)) if dtype is not None else a


@method("DF", "astype")
def df_astype(I, o, dtype, copy=None, errors="raise"):
    if isinstance(dtype, PDict):
        cols = {}
        for k in dtype.d:
            if k not in o.cols:
                raise AbsRaise("KeyError", f"Only a column name can be used for the key in a dtype mappings argument: {k!r}", I.where())
        for c, a in o.cols.items():
            cols[c] = astype(a, dt_of(I, dtype.d[c])) if c in dtype.d else a.copy()
        r = DF(cols, o.n, index=o.index)
    else:
        d = dt_of(I, dtype)
        r = DF({c: astype(a, d) for c, a in o.cols.items()}, o.n, index=o.index)
    r.meta = dict(o.meta)
    return r


@method("DF", "set_index")
def df_set_index(I, o, keys, drop=True, append=False, inplace=False, verify_integrity=False):
    names = names_of(I, keys) if not isinstance(keys, str) else [keys]
    if names is None:
        raise Unsupported("set_index")
    idx = {n: col_of(I, o, n) for n in names}
    if append and o.index:
        idx = {**o.index, **idx}
    cols = {c: a for c, a in o.cols.items() if c not in names} if drop is True else dict(o.cols)
    r = DF(cols, o.n, index=idx)
    if inplace is True:
        I.on_mutate(o.cell, "set_index in place")
        o.cell.set((cols, o.n))
        o.index = idx
        return None
    return r


@method("DF", "reset_index")
def df_reset_index(I, o, level=None, drop=False, inplace=False, names=None):
    cols = dict(o.cols)
    if o.index and drop is False:
        cols = {**o.index, **cols}
    r = DF(cols, o.n)
    if o.index is None:
        r.meta = dict(o.meta)
    if inplace is True:
        I.on_mutate(o.cell, "reset_index in place")
        o.cell.set((cols, o.n))
        o.index = None
        return None
    return r


@method("DF", "assign")
def df_assign(I, o, **kw):
    r = df_copy(o)
    for k, v in kw.items():
        if isinstance(v, (Func, Partial, PyFn)):
            v = I.call(v, [r])
        set_column(I, r, k, column(I, v, r.n))
    return r


@method("DF", "insert")
def df_insert(I, o, loc, col, value, allow_duplicates=False):
    I.on_mutate(o.cell, f"column {col!r} inserted")
    cols = list(o.cols.items())
    cols.insert(const_int(loc), (col, column(I, value, o.n)))
    o.cell.set((dict(cols), o.n))


@method("DF", "drop")
def df_drop(I, o, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
    if columns is None and (axis == "columns" or is_num(axis) and const_int(axis) == 1):
        columns = labels
    if columns is None:
        raise Unsupported("drop rows")
    names = [columns] if isinstance(columns, str) else names_of(I, columns)
    for n in names:
        if errors == "raise":
            col_of(I, o, n)
    cols = {c: a for c, a in o.cols.items() if c not in names}
    if inplace is True:
        I.on_mutate(o.cell, "columns dropped in place")
        o.cell.set((cols, o.n))
        return None
    return DF(cols, o.n, index=o.index)


@method("DF", "rename")
def df_rename(I, o, mapper=None, index=None, columns=None, axis=None, inplace=False, **kw):
    m = columns if columns is not None else mapper
    if columns is None and not (axis == "columns" or is_num(axis) and const_int(axis) == 1):
        raise Unsupported("rename rows")
    if not isinstance(m, PDict):
        raise Unsupported("rename")
    cols = {m.d.get(c, c): a for c, a in o.cols.items()}
    if inplace is True:
        I.on_mutate(o.cell, "columns renamed in place")
        o.cell.set((cols, o.n))
        return None
    return DF(cols, o.n, index=o.index)


@method("DF", "pop")
def df_pop(I, o, name):
    I.on_mutate(o.cell, f"column {name!r} popped")
    cols = dict(o.cols)
    a = col_of(I, o, name)
    del cols[name]
    o.cell.set((cols, o.n))
    return Series(a, o.index, name)


@method("DF", "items", "iteritems")
def df_items(I, o):
    return PList([(c, Series(a, o.index, c)) for c, a in o.cols.items()])


@method("DF", "keys")
def df_keys(I, o):
    return Idx([tuple(o.cols)], ["columns"])


@method("DF", "get")
def df_get(I, o, k, default=None):
    return Series(o.cols[k], o.index, k) if k in o.cols else default


@method("DF", "filter", "reindex")
def df_filter(I, o, items=None, columns=None, **kw):
    names = names_of(I, columns if columns is not None else items)
    if names is None or kw:
        raise Unsupported("reindex")
    return DF({c: o.cols[c] if c in o.cols else Arr((o.n,), lambda j: leaf("nan"), "float", "np") for c in names}, o.n, index=o.index)


@method("DF", "head")
def df_head(I, o, n=5):
    return apply_rows(I, o, row_sel(I, Slice(None, n, None), o.n, o.index))


@method("DF", "query", "eval", "groupby", "merge", "join", "apply", "pivot", "sort_values", "sort_index", "drop_duplicates", "stack", "unstack", "sample")
def df_unsup(I, o, *a, **kw):
    raise Unsupported("frame method")


@method("DF", "fillna", "clip", "mul", "add", "sub", "div", "round", "abs", "multiply", "divide")
def df_cols_unsup(I, o, *a, **kw):
    raise Unsupported("frame elementwise method")


@method("DF", "sum", "mean", "any", "all", "min", "max", "isna", "isnull")
def df_red(I, o, *a, **kw):
    raise Unsupported("frame reduction")


@method("DF", "transpose")
def df_T(I, o):
    raise Unsupported("frame transpose")


@method("DF", "xs")
def df_xs(I, o, key, level=None, axis=0, drop_level=True):
    if not o.index:
        raise Unsupported("xs")
    lev = list(o.index)[0] if level is None else (level if isinstance(level, str) else list(o.index)[const_int(level)])
    m = compare_vals(I, "eq", o.index[lev], key)
    r = apply_rows(I, o, row_sel(I, m, o.n, o.index))
    if r.index:
        r.index = {k: v for k, v in r.index.items() if k != lev} or None
    return r


# ------------------------------------------------------------------ series methods
def only(kw):
    """keyword arguments that leave the result as it is"""
    for k, v in kw.items():
        if k not in ("axis", "copy", "level") and not (k in ("inplace", "regex") and v is False):
            raise Unsupported(f"series method with {k}")


def sreg(*names):
    def d(fn):
        for n in names:
            METHODS["Series", n] = fn
        return fn
    return d


@sreg("to_numpy")
def s_to_numpy(I, o, dtype=None, copy=False, na_value=None):
    if dtype is not None:
        return astype(o.arr, dt_of(I, dtype))
    return o.arr.copy() if copy is True else o.arr


@sreg("copy")
def s_copy(I, o, deep=True):
    return Series(o.arr.copy(), o.index, o.name)


@sreg("astype")
def s_astype(I, o, dtype, copy=None, errors="raise"):
    return Series(astype(o.arr, dt_of(I, dtype)), o.index, o.name)


@sreg("to_list", "tolist")
def s_tolist(I, o):
    a = o.arr
    if a.shape[0].is_const():
        return PList([scalar(a.at(C(i)), a.dt) for i in range(int(a.shape[0].const()))])
    return Arr(a.shape, a.fn(), a.dt, "list")


def _scmp(op):
    def f(I, o, other, level=None, fill_value=None, axis=0):
        return compare_vals(I, op, o, other)
    return f


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    METHODS["Series", _n] = _scmp(_n)


def _sop(op, swap=False):
    def f(I, o, other, level=None, fill_value=None, axis=0):
        a, b = o.arr, to_arr(I, other)
        return Series(arr_binop(I, op, b, a) if swap else arr_binop(I, op, a, b), o.index, o.name)
    return f


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "div"), ("truediv", "div"), ("pow", "pow"), ("mod", "mod"),
               ("floordiv", "floordiv"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div")):
    METHODS["Series", _n] = _sop(_o)
for _n, _o in (("radd", "add"), ("rsub", "sub"), ("rmul", "mul"), ("rdiv", "div"), ("rpow", "pow")):
    METHODS["Series", _n] = _sop(_o, True)


@sreg("isin")
def s_isin(I, o, values):
    return Series(PRIMS["np.isin"](I, o.arr, values), o.index)


@sreg("isna", "isnull")
def s_isna(I, o):
    return Series(PRIMS["np.isnan"](I, o.arr), o.index)


@sreg("notna", "notnull")
def s_notna(I, o):
    return Series(ew(lambda p: ONE - p, PRIMS["np.isnan"](I, o.arr), dt="bool"), o.index)


@sreg("fillna")
def s_fillna(I, o, value=None, **kw):
    only(kw)
    if value is None:
        raise Unsupported("series method")
    m = PRIMS["np.isnan"](I, o.arr)
    return Series(PRIMS["np.where"](I, m, value, o.arr), o.index, o.name)


@sreg("where")
def s_where(I, o, cond, other=None, **kw):
    only(kw)
    if isinstance(cond, (Func, Partial, PyFn)):
        raise Unsupported("series method")
    return Series(PRIMS["np.where"](I, cond, o.arr, leaf("nan") if other is None else other), o.index, o.name)


@sreg("mask")
def s_mask(I, o, cond, other=None, **kw):
    only(kw)
    if isinstance(cond, (Func, Partial, PyFn)):
        raise Unsupported("series method")
    return Series(PRIMS["np.where"](I, cond, leaf("nan") if other is None else other, o.arr), o.index, o.name)


@sreg("clip")
def s_clip(I, o, lower=None, upper=None, **kw):
    only(kw)
    return Series(PRIMS["np.clip"](I, o.arr, lower, upper), o.index, o.name)


@sreg("replace")
def s_replace(I, o, to_replace=None, value=None, **kw):
    only(kw)
    if isinstance(to_replace, PDict):
        r = o.arr
        f = r.fn()
        prs = [(arr_of(k).p(), arr_of(v).p()) for k, v in to_replace.d.items()]

        def g(*i):
            v = f(*i)
            out = v
            for k, w in reversed(prs):
                out = select(eq(v - k), w, out)
            return out
        return Series(Arr(r.shape, g, r.dt, "np"), o.index, o.name)
    m = compare_vals(I, "eq", o.arr, to_replace)
    return Series(PRIMS["np.where"](I, m, value, o.arr), o.index, o.name)


@sreg("map")
def s_map(I, o, arg, na_action=None):
    a = o.arr
    f = a.fn()
    if isinstance(arg, PDict):
        prs = [(arr_of(k).p(), arr_of(v).p()) for k, v in arg.d.items()]

        def g(*i):
            v = f(*i)
            out = leaf("nan")
            for k, w in reversed(prs):
                out = select(eq(v - k), w, out)
            return out
        return Series(Arr(a.shape, g, "float", "np"), o.index, o.name)
    r = PRIMS["np.vectorize"](I, arg)
    return Series(to_arr(I, I.call(r, [a])), o.index, o.name)


METHODS["Series", "apply"] = s_map


@sreg("items", "iteritems")
def s_items(I, o):
    raise Unsupported("series items")


@sreg("reset_index")
def s_reset(I, o, level=None, drop=False, name=None, inplace=False):
    if drop is True:
        return Series(o.arr, None, o.name)
    raise Unsupported("series reset_index")


@sreg("unique", "value_counts", "sort_values", "drop_duplicates", "shift", "rolling", "groupby", "unstack")
def s_unsup(I, o, *a, **kw):
    raise Unsupported("series method")


@sreg("to_frame")
def s_to_frame(I, o, name=None):
    return DF({name or o.name: o.arr}, o.arr.shape[0], index=o.index)


def _delegate(name, wrap):
    def f(I, o, *a, **kw):
        kw = {k: v for k, v in kw.items() if k not in ("skipna", "numeric_only", "min_count")}
        r = L.call_method(I, o.arr, name, list(a), kw)
        return Series(r, o.index, o.name) if wrap and isinstance(r, Arr) and r.shape else r
    return f


for _n in ("sum", "mean", "any", "all", "min", "max", "prod", "cumsum", "dot", "argmax", "argmin", "item", "std", "var"):
    METHODS["Series", _n] = _delegate(_n, _n == "cumsum")
for _n in ("abs", "round"):
    def _f(I, o, *a, _n=_n, **kw):
        return Series(PRIMS["np." + _n](I, o.arr, *a), o.index, o.name)
    METHODS["Series", _n] = _f


@sreg("between")
def s_between(I, o, left, right, inclusive="both"):
    lo = compare_vals(I, "ge" if inclusive in ("both", "left") else "gt", o, left)
    hi = compare_vals(I, "le" if inclusive in ("both", "right") else "lt", o, right)
    return L.binop(I, "and", lo, hi)


@sreg("get")
def s_get(I, o, k, default=None):
    try:
        return pd_get(I, o, k)
    except AbsRaise:
        return default


@sreg("xs")
def s_xs(I, o, key, level=None):
    df = DF({"v": o.arr}, o.arr.shape[0], index=o.index)
    r = df_xs(I, df, key, level)
    return Series(r.cols["v"], r.index, o.name)


# ------------------------------------------------------------------ index
@method("Idx", "get_level_values")
def get_level_values(I, o, level):
    lv = o.levels[0]
    if isinstance(lv, dict):
        if isinstance(level, str):
            if level not in lv:
                raise AbsRaise("KeyError", f"Level {level} not found", I.where())
            return Series(lv[level], None, level)
        vals = list(lv.values())
        k = const_int(level)
        try:
            return Series(vals[k], None, list(lv)[k])
        except IndexError:
            raise AbsRaise("IndexError", "Too many levels", I.where())
    if isinstance(lv, LabelDF):
        if isinstance(level, str):
            if level not in lv.names:
                raise AbsRaise("KeyError", f"Level {level} not found", I.where())
            k = lv.names.index(level)
        else:
            k = const_int(level)
        return LVec([r[k] for r in lv.rows])
    if lv is None and is_num(level) and const_int(level) == 0:
        raise Unsupported("default index level")
    raise Unsupported("get_level_values")


@method("PList", "unique")
def plist_unique(I, o):
    out = []
    for x in o.items:
        if x not in out:
            out.append(x)
    return type(o)(out)


@method("PList", "tolist", "to_list")
def plist_tolist(I, o):
    return PList(o.items)


@method("LVec", "unique", "drop_duplicates")
def lvec_unique(I, o):
    return plist_unique(I, o)


@method("LVec", "tolist", "to_list")
def lvec_tolist(I, o):
    return PList(o.items)


@method("LVec", "to_numpy", "copy", "astype", "to_series")
def lvec_same(I, o, *a, **kw):
    return LVec(o.items)


@method("LVec", "isin")
def lvec_isin(I, o, vals):
    return plist_isin(I, o, vals)


@method("LVec", "map")
def lvec_map(I, o, f):
    r = [I.call(f, [x], {}) for x in o.items]
    return LVec(r) if all(isinstance(x, str) for x in r) else to_arr(I, PList(r))


@method("LVec", "nunique")
def lvec_nunique(I, o):
    return scalar(C(len(set(o.items))), "int")


@method("LVec", "value_counts")
def lvec_counts(I, o):
    n = {}
    for x in o.items:
        n[(x,)] = n.get((x,), 0) + 1
    return LabelSeries({k: C(v) for k, v in n.items()}, ["index"])


def _lstr(name, f):
    @method("Lstr", name)
    def g(I, o, *a, **kw):
        if kw or not all(isinstance(x, (str, tuple)) for x in a) and name not in ("lower", "upper", "strip"):
            raise Unsupported("str accessor arguments")
        r = [f(x, *a) for x in o.obj.items]
        return bools(I, r) if r and isinstance(r[0], bool) else LVec(r)


for _n, _f in (("startswith", str.startswith), ("endswith", str.endswith), ("lower", str.lower), ("upper", str.upper), ("strip", str.strip)):
    _lstr(_n, _f)


@method("Lstr", "contains")
def lstr_contains(I, o, pat, regex=True, **kw):
    import re
    if not isinstance(pat, str) or kw:
        raise Unsupported("str.contains arguments")
    return bools(I, [bool(re.search(pat, x)) if regex is True else pat in x for x in o.obj.items])


@method("PList", "isin")
def plist_isin(I, o, vals):
    items = I.iterate(vals)[1]
    return bools(I, [any(x == y for y in items) for x in o.items])


@method("Idx", "unique", "tolist", "to_list", "to_flat_index")
def idx_unique(I, o, level=None):
    lv = o.levels[0]
    if isinstance(lv, tuple):
        return PList(lv)
    if isinstance(lv, LabelDF):
        if level is not None:
            return plist_unique(I, get_level_values(I, o, level))
        return PList([k if len(k) > 1 else k[0] for k in lv.rows])
    raise Unsupported("index values")


@method("Idx", "get_loc")
def idx_get_loc(I, o, key):
    lv = o.levels[0]
    if isinstance(lv, tuple):
        if key not in lv:
            raise AbsRaise("KeyError", repr(key), I.where())
        return lv.index(key)
    raise Unsupported("get_loc")


@method("Idx", "isin")
def idx_isin(I, o, vals, level=None):
    lv = o.levels[0]
    if isinstance(lv, dict):
        a = get_level_values(I, o, level if level is not None else 0)
        return PRIMS["np.isin"](I, a.arr, vals)
    if isinstance(lv, LabelDF):
        src = get_level_values(I, o, level).items if level is not None else [k if len(k) > 1 else k[0] for k in lv.rows]
        items = I.iterate(vals)[1]
        return bools(I, [any(x == y for y in items) for x in src])
    return bools(I, [any(x == y for y in I.iterate(vals)[1]) for x in lv])


@method("Idx", "to_frame", "to_series", "droplevel", "set_names", "rename", "astype")
def idx_unsup(I, o, *a, **kw):
    raise Unsupported("index method")


# ------------------------------------------------------------------ parameter table
def ldf_keys(o):
    return [k if len(k) > 1 else k[0] for k in o.rows]


@method("LabelDF", "copy")
def ldf_copy(I, o, deep=True):
    return LabelDF(dict(o.rows), o.col, list(o.names))


@method("LabelDF", "to_numpy")
def ldf_to_numpy(I, o, dtype=None, copy=False):
    return to_arr(I, o)


@method("LabelDF", "xs")
def ldf_xs(I, o, key, level=None, axis=0, drop_level=True):
    k = 0 if level is None else (o.names.index(level) if isinstance(level, str) else const_int(level))
    rows = {r[:k] + r[k + 1:]: v for r, v in o.rows.items() if r[k] == key}
    if not rows:
        raise AbsRaise("KeyError", repr(key), I.where())
    return LabelDF(rows, o.col, o.names[:k] + o.names[k + 1:])


@method("LabelDF", "sort_index")
def ldf_sort(I, o, *a, **kw):
    if a or any(k not in ("inplace", "level") for k in kw):
        raise Unsupported("sort_index arguments")
    rows = dict(sorted(o.rows.items()))
    if kw.get("inplace") is True:
        I.on_mutate(o.cell, "sorted in place")
        o.cell.set(rows)
        return None
    return LabelDF(rows, o.col, o.names)


@method("LabelDF", "reset_index", "groupby", "query", "set_index", "droplevel")
def ldf_unsup(I, o, *a, **kw):
    raise Unsupported("parameter table method")


@method("LabelDF", "get")
def ldf_get(I, o, k, default=None):
    return LabelSeries(o.rows, o.names) if k == o.col else default


@method("LabelDF", "astype", "dropna", "rename_axis")
def ldf_same(I, o, *a, **kw):
    return o


@method("LabelDF", "to_dict")
def ldf_to_dict(I, o, orient="dict"):
    return PDict({o.col: PDict({k if len(k) > 1 else k[0]: scalar(v) for k, v in o.rows.items()})})


@method("LabelSeries", "to_dict")
def ls_to_dict(I, o, into=None):
    return PDict({k if len(k) > 1 else k[0]: scalar(v) for k, v in o.rows.items()})


@method("LabelSeries", "items", "iteritems")
def ls_items(I, o):
    return PList([(k if len(k) > 1 else k[0], scalar(v)) for k, v in o.rows.items()])


@method("LabelSeries", "keys")
def ls_keys(I, o):
    return PList([k if len(k) > 1 else k[0] for k in o.rows])


@method("LabelSeries", "to_numpy", "astype")
def ls_to_numpy(I, o, *a, **kw):
    return to_arr(I, o)


@method("LabelSeries", "tolist", "to_list")
def ls_tolist(I, o):
    return PList([scalar(v) for v in o.rows.values()])


@method("LabelSeries", "copy")
def ls_copy(I, o, deep=True):
    return LabelSeries(dict(o.rows), o.names)


@method("LabelSeries", "sort_index")
def ls_sort(I, o, *a, **kw):
    if a or kw:
        raise Unsupported("sort_index arguments")
    return LabelSeries(dict(sorted(o.rows.items())), o.names)


@method("LabelSeries", "get")
def ls_get(I, o, k, default=None):
    return scalar(o.rows[(k,)]) if (k,) in o.rows else default


@method("LabelSeries", "filter")
def ls_filter(I, o, items=None, like=None, regex=None, axis=None):
    if like is not None:
        return LabelSeries({k: v for k, v in o.rows.items() if like in k[-1]}, o.names)
    if regex is not None:
        import re
        return LabelSeries({k: v for k, v in o.rows.items() if re.search(regex, k[-1])}, o.names)
    raise Unsupported("filter")


@method("LabelSeries", "sum", "min", "max", "mean", "cumsum", "prod")
def ls_red(I, o, *a, **kw):
    raise Unsupported("reduction of a label series")


METHODS["LabelSeries", "sum"] = lambda I, o, *a, **kw: scalar(psum(list(o.rows.values())))
METHODS["LabelSeries", "item"] = lambda I, o: scalar(list(o.rows.values())[0])
