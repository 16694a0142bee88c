"""Tables of known shape (pandas frames whose rows and columns are all known to the analysis): values stay symbolic,
orderings are used only where the value analysis decides every comparison. Whatever is not modelled is unknown."""
from .terms import *

ROWS, COL = "pdframe", "pdseries"


def is_table(v):
    return v.op == "obj" and v.args[0] in (ROWS, COL)


class Frames:
    def __init__(self, I):
        self.I = I
        I.frames = self

    # -- representation
    def frame(self, names, rows, labels, st):
        o = self.I.new_obj(ROWS)
        self.put(o, names, rows, labels, st)
        return o

    def put(self, o, names, rows, labels, st):
        st.heap[(o, "f", "_t")] = mk("pdt", mk("tuple", *names), mk("tuple", *[mk("tuple", *r) for r in rows]), mk("tuple", *labels))

    def series(self, vals, labels, st):
        o = self.I.new_obj(COL)
        st.heap[(o, "c")] = mk("list", *[mk("seg", v, TRUE, mk("loops")) for v in vals])
        st.heap[(o, "f", "_i")] = mk("tuple", *labels)
        return o

    def data(self, o, st):
        t = st.heap.get((o, "f", "_t")) if o.op == "obj" else None
        if t is None or t.op != "pdt":
            return None
        return list(t.args[0].args), [list(r.args) for r in t.args[1].args], list(t.args[2].args)

    def sdata(self, o, st):
        c, i = self.elements(o, st), st.heap.get((o, "f", "_i"))
        if c is None or i is None or i.op != "tuple" or len(i.args) != len(c):
            return None
        return c, list(i.args)

    def elements(self, v, st):
        """the elements of a sequence of known length"""
        if v.op == "dview":
            c = self.I.content(v.args[1], st)
            if c is None or c.op != "dict" or not all(k.op == "kv" and k.args[2] is TRUE and not k.args[3].args for k in c.args):
                return None
            return [k.args[0] if v.args[0] == "keys" else k.args[1] if v.args[0] == "values" else mk("tuple", k.args[0], k.args[1]) for k in c.args]
        c = self.I.content(v, st)
        if c is None or c.op not in ("list", "set") or not all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in c.args):
            return None
        return [s.args[0] for s in c.args]

    def unknown(self, what, *objs, st):
        for o in objs:                                  # and no longer known if it may have changed
            if is_table(o):
                st.heap[(o, "f", "_t" if o.args[0] == ROWS else "_i")] = mk("exc", "table", what)
                if o.args[0] == COL:
                    st.heap[(o, "c")] = mk("list", mk("star", mk("exc", "table", what)))
        return mk("exc", "table", what)

    @staticmethod
    def rng(n):
        return [const(i) for i in range(n)]

    def flag(self, kw, name, default):
        v = kw.get(name)
        return default if v is None else cval(v) if v.op == "const" else None

    # -- functions
    def ext(self, n, a, kw, st, node):
        if n == "pandas.DataFrame" and a:
            return self.make(a[0], kw, st, a[1:])
        if n == "pandas.DataFrame.from_dict" and len(a) == 1 and not kw:
            return self.make(a[0], kw, st, ())
        if n == "pandas.concat" and len(a) == 1:
            return self.concat(self.elements(a[0], st), kw, st)
        if n == "pandas.Series" and a:
            e = self.elements(a[0], st)
            return self.series(e, self.rng(len(e)), st) if e is not None and not kw else None
        if n == "pandas.merge" and len(a) >= 2 and all(is_table(x) for x in a[:2]):
            return self.merge(a[0], a[1], {**dict(zip(("how", "on"), a[2:])), **kw}, st)
        if n == "len" and len(a) == 1 and is_table(a[0]) and a[0].args[0] == ROWS:
            d = self.data(a[0], st)
            return const(len(d[1])) if d else self.unknown(n, st=st)
        if n.startswith("pandas.") and any(is_table(x) for x in a):
            return self.unknown(n, *a, st=st)
        return None

    def make(self, src, kw, st, more):
        if more or set(kw) - {"index", "columns"}:
            return None
        idx = self.elements(kw["index"], st) if "index" in kw else None
        cols = self.elements(kw["columns"], st) if "columns" in kw else None
        if ("index" in kw and idx is None) or ("columns" in kw and cols is None):
            return None
        c = self.I.content(src, st)
        if c is not None and c.op == "dict":
            if not all(k.op == "kv" and k.args[2] is TRUE and not k.args[3].args for k in c.args):
                return None
            names = [k.args[0] for k in c.args]
            vals = [self.elements(k.args[1], st) for k in c.args]
            if cols is not None or None in vals or len({len(v) for v in vals}) != 1:
                return None
            rows = [list(r) for r in zip(*vals)]
            return self.frame(names, rows, idx or self.rng(len(rows)), st) if idx is None or len(idx) == len(rows) else None
        src = self.elements(src, st)
        if not src:
            return None
        ds = [self.I.content(x, st) for x in src]
        if all(d is not None and d.op == "dict" for d in ds):
            if not all(k.op == "kv" and k.args[2] is TRUE and not k.args[3].args for d in ds for k in d.args):
                return None
            names = [k.args[0] for k in ds[0].args]
            if any([k.args[0] for k in d.args] != names for d in ds) or cols is not None and cols != names:
                return None
            rows = [[k.args[1] for k in d.args] for d in ds]
        else:
            rows = [self.elements(x, st) for x in src]
            if None in rows or len({len(r) for r in rows}) != 1:
                return None
            names = cols or self.rng(len(rows[0]))
            if len(names) != len(rows[0]):
                return None
        if idx is not None and len(idx) != len(rows):
            return None
        return self.frame(names, rows, idx or self.rng(len(rows)), st)

    def concat(self, parts, kw, st):
        ds = [self.data(x, st) if is_table(x) and x.args[0] == ROWS else None for x in parts or ()]
        ax = self.flag(kw, "axis", 0)
        if not ds or None in ds or set(kw) - {"axis", "ignore_index"} or ax not in (0, 1):
            return self.unknown("concat", st=st)
        if ax == 1:
            if any(d[2] != ds[0][2] for d in ds):
                n = max(len(d[1]) for d in ds)          # rows are matched by label: padded where a table is shorter
                if any(d[2] != self.rng(len(d[1])) for d in ds):
                    return self.unknown("concat", st=st)
                ds = [(d[0], d[1] + [[NONE] * len(d[0])] * (n - len(d[1])), self.rng(n)) for d in ds]
            return self.frame([x for d in ds for x in d[0]], [[v for r in rs for v in r] for rs in zip(*[d[1] for d in ds])], ds[0][2], st)
        if any(d[0] != ds[0][0] for d in ds):
            return self.unknown("concat", st=st)
        rows = [r for d in ds for r in d[1]]
        o = self.frame(ds[0][0], rows, self.rng(len(rows)) if self.flag(kw, "ignore_index", False) else [x for d in ds for x in d[2]], st)
        self.named(o, self.names(parts[0], st), st)
        return o

    def names(self, o, st):
        """names of the index levels"""
        t = st.heap.get((o, "f", "_n"))
        return list(t.args) if t is not None and t.op == "tuple" else [NONE]

    def named(self, o, names, st):
        if names != [NONE]:
            st.heap[(o, "f", "_n")] = mk("tuple", *names)

    def group(self, name, b, keys, st, node, cols=None):
        """one row per distinct key, in the order of the keys; None when not determined"""
        d = self.data(b, st)
        if d is None or any(k not in d[0] for k in keys):
            return None
        ix = [d[0].index(k) for k in keys]
        groups = {}
        for r in d[1]:
            k = tuple(r[i] for i in ix)
            if any(x.op != "const" for x in k):
                return None
            groups.setdefault(k, []).append(r)
        try:
            order = sorted(groups, key=lambda k: [cval(x) for x in k])
        except TypeError:
            return None
        rest = cols if cols is not None else [c for c in d[0] if c not in keys]
        rows = []
        for k in order:
            row = []
            for c in rest:
                how = name[c] if isinstance(name, dict) else name
                v = [r[d[0].index(c)] for r in groups[k]]
                if any(x is NONE or x.op == "const" and type(cval(x)) not in (int, float) for x in v):
                    return None
                t = const(0)
                for x in v:
                    t = self.I.binop("add", t, x, st, node)
                row.append(t if how == "sum" else self.I.binop("div", t, const(len(v)), st, node))
            rows.append(row)
        o = self.frame(rest, rows, [k[0] if len(keys) == 1 else mk("tuple", *k) for k in order], st)
        self.named(o, keys, st)
        return o

    def grouped(self, name, g, a, kw, st, node):
        r = self.group(name, g.args[0], list(g.args[1].args), st, node) if name in ("sum", "mean") and not a and not kw else None
        return r if r is not None else self.unknown(name, st=st)

    def pivot(self, b, kw, st, node):
        """pivot_table with an index and values"""
        if set(kw) - {"index", "values", "aggfunc"} or "index" not in kw or "values" not in kw:
            return None
        keys, vals = [[kw[x]] if kw[x].op == "const" else self.elements(kw[x], st) for x in ("index", "values")]
        if not keys or not vals or any(v.op != "const" for v in vals):
            return None

        def how(f):
            n = f.args[0] if f.op == "ext" else cval(f) if f.op == "const" else None
            return {"numpy.sum": "sum", "numpy.mean": "mean", "sum": "sum", "mean": "mean"}.get(n)
        f = kw.get("aggfunc")
        c = self.I.content(f, st) if f is not None and f.op == "obj" else None
        if f is None:
            agg = "mean"
        elif c is not None and c.op == "dict" and all(k.op == "kv" and k.args[2] is TRUE and not k.args[3].args for k in c.args):
            agg = {k.args[0]: how(k.args[1]) for k in c.args}
            if set(agg) != set(vals) or None in agg.values():
                return None
        else:
            agg = how(f)
            if agg is None:
                return None
        return self.group(agg, b, keys, st, node, sorted(vals, key=lambda v: str(cval(v))))

    def merge(self, l, r, kw, st):
        L, R = self.data(l, st), self.data(r, st)
        how = self.flag(kw, "how", "inner")
        if L is None or R is None or set(kw) - {"how", "on", "left_on", "right_on"} or how not in ("left", "inner", "outer"):
            return self.unknown("merge", st=st)
        lo, ro = kw.get("left_on", kw.get("on")), kw.get("right_on", kw.get("on"))
        if lo is None or ro is None or lo not in L[0] or ro not in R[0] or set(L[0]) & set(R[0]) - ({lo} if lo is ro else set()):
            return self.unknown("merge", st=st)
        i, j = L[0].index(lo), R[0].index(ro)
        drop = j if lo is ro else None
        rows = []
        for x in L[1]:
            hits = []
            for y in R[1]:
                c = self.decide(EQ(x[i], y[j]), st)
                if c is None:
                    return self.unknown("merge", st=st)
                if c:
                    hits.append(y)
            for y in hits or ([[NONE] * len(R[0])] if how != "inner" else []):
                rows.append(x + [v for k, v in enumerate(y) if k != drop])
        names = L[0] + [v for k, v in enumerate(R[0]) if k != drop]
        if how == "outer":
            # rows of either side, in the order of the keys
            if lo is not ro or any(r[k].op != "const" for rs, k in ((L[1], i), (R[1], j)) for r in rs):
                return self.unknown("merge", st=st)
            known = {x[i] for x in L[1]}
            for y in R[1]:
                if y[j] not in known:
                    rows.append([y[j] if k == i else NONE for k in range(len(L[0]))] + [v for k, v in enumerate(y) if k != drop])
            try:
                rows.sort(key=lambda r: cval(r[i]))
            except TypeError:
                return self.unknown("merge", st=st)
        return self.frame(names, rows, self.rng(len(rows)), st)

    def decide(self, c, st):
        c = self.I.csimp(c, st.facts) if c not in (TRUE, FALSE) else c
        return True if c is TRUE else False if c is FALSE else None

    # -- attributes and methods
    def attr(self, b, name, st, node):
        if b.args[0] == COL:
            d = self.sdata(b, st)
            if d is None:
                return self.unknown(name, st=st) if name in ("values", "index", "iloc", "loc", "size") else mk("meth", name, b)
            if name == "values":
                return self.series(d[0], self.rng(len(d[0])), st)
            if name == "index":
                return self.series(d[1], self.rng(len(d[1])), st)
            if name == "size":
                return const(len(d[0]))
            return mk("pdloc", name, b) if name in ("iloc", "loc", "at", "iat") else mk("meth", name, b)
        d = self.data(b, st)
        if d is not None:
            if name == "T":
                return self.frame(d[2], [list(r) for r in zip(*d[1])], d[0], st)
            if const(name) in d[0]:
                return self.column(d, const(name), st)
            if name in ("index", "columns"):
                v = d[2] if name == "index" else d[0]
                return self.series(v, self.rng(len(v)), st)
            if name == "shape":
                return mk("tuple", const(len(d[1])), const(len(d[0])))
            if name == "empty":
                return TRUE if not d[1] else FALSE
            if name in ("iloc", "loc", "at", "iat"):
                return mk("pdloc", name, b)
        elif name in ("T", "index", "columns", "shape", "empty", "values", "iloc", "loc", "at", "iat"):
            return self.unknown(name, st=st)
        return mk("meth", name, b)

    def column(self, d, key, st):
        i = d[0].index(key)
        return self.series([r[i] for r in d[1]], d[2], st)

    def meth(self, name, b, a, kw, st, node):
        if b.args[0] == COL:
            d = self.sdata(b, st)
            if d is None:
                return self.unknown(name, b, st=st)
            v, lab = d
            if name == "fillna" and len(a) == 1 and not kw:
                o = self.sdata(a[0], st) if is_table(a[0]) and a[0].args[0] == COL else None
                if o is not None and all(x.op == "const" for x in lab + o[1]) and len(set(o[1])) == len(o[1]):
                    m = dict(zip(o[1], o[0]))
                    return self.series([m.get(l, NONE) if x is NONE else x for x, l in zip(v, lab)], lab, st)
                if a[0].op == "const":
                    return self.series([a[0] if x is NONE else x for x in v], lab, st)
                return self.unknown(name, b, st=st)
            if name in ("sum", "cumsum") and not a and not kw:
                out, run = const(0), []
                for x in v:
                    out = self.I.binop("add", out, x, st, node)
                    run.append(out)
                return out if name == "sum" else self.series(run, lab, st)
            if name in ("tolist", "to_list") and not a:
                o = self.I.new_obj("list")
                st.heap[(o, "c")] = st.heap[(b, "c")]
                return o
            if name in ("max", "min") and not a and not kw and v:
                return self.I.call_ext(name, [b], {}, st, node)
            if name in ("copy", "astype") and len(a) <= 1:
                return self.series(v, lab, st)
            if name == "abs" and not a:
                return self.series([self.I.call_ext("abs", [x], {}, st, node) for x in v], lab, st)
            if name in ("head", "tail") and len(a) == 1 and a[0].op == "const" and type(cval(a[0])) is int and cval(a[0]) >= 0:
                n = cval(a[0])
                s = slice(0, n) if name == "head" else slice(max(len(v) - n, 0), None)
                return self.series(v[s], lab[s], st)
            return self.unknown(name, b, st=st)
        d = self.data(b, st)
        if d is None:
            return self.unknown(name, b, st=st)
        names, rows, labels = d
        kw = dict(kw)
        inplace = self.flag(kw, "inplace", False)
        kw.pop("inplace", None)
        new, keep = None, self.names(b, st)
        if name == "copy" and set(kw) <= {"deep"} or name == "infer_objects" and not a and not kw:
            new = d
        elif name in ("transpose",) and not a and not kw:
            new = (labels, [list(r) for r in zip(*rows)], names)
        elif name == "fillna" and len(a) + len(kw) == 1 and (a or "value" in kw):
            v = a[0] if a else kw["value"]
            if v.op == "const":
                new = (names, [[v if x is NONE else x for x in r] for r in rows], labels)
        elif name == "reset_index" and not a and set(kw) <= {"drop"} and self.flag(kw, "drop", False) is not None:
            ns = self.names(b, st)
            if self.flag(kw, "drop", False):
                new = (names, rows, self.rng(len(rows)))
            elif len(ns) == 1:
                new = ([const("index") if ns[0] is NONE else ns[0]] + names, [[l] + r for l, r in zip(labels, rows)], self.rng(len(rows)))
            elif NONE not in ns and all(l.op == "tuple" and len(l.args) == len(ns) for l in labels):
                new = (ns + names, [list(l.args) + r for l, r in zip(labels, rows)], self.rng(len(rows)))
            if new is not None:
                keep = [NONE]
        elif name == "set_index" and (len(a) == 1 and not kw or not a and set(kw) == {"keys"}):
            k = a[0] if a else kw["keys"]
            ks = [k] if k.op == "const" else self.elements(k, st)
            if ks and all(x in names for x in ks):
                ix = [names.index(x) for x in ks]
                new = ([x for x in names if x not in ks], [[v for i, v in enumerate(r) if i not in ix] for r in rows], [r[ix[0]] if len(ix) == 1 else mk("tuple", *[r[i] for i in ix]) for r in rows])
                keep = ks
        elif name == "groupby" and len(a) == 1 and not kw:
            ks = [a[0]] if a[0].op == "const" else self.elements(a[0], st)
            if ks and all(x in names for x in ks):
                return mk("pdgroup", b, mk("tuple", *ks))
        elif name == "pivot_table" and not a:
            r = self.pivot(b, kw, st, node)
            return r if r is not None else self.unknown(name, st=st)
        elif name == "sort_values" and set(kw) <= {"by", "ascending", "ignore_index", "kind"} and (len(a) == 1) != ("by" in kw):
            new = self.sort(d, a[0] if a else kw["by"], kw, st)
        elif name in ("head", "tail") and len(a) == 1 and a[0].op == "const" and type(cval(a[0])) is int and cval(a[0]) >= 0:
            s = slice(0, cval(a[0])) if name == "head" else slice(max(len(rows) - cval(a[0]), 0), None)
            new = (names, rows[s], labels[s])
        elif name == "rename" and not a and set(kw) == {"columns"}:
            c = self.I.content(kw["columns"], st)
            if c is not None and c.op == "dict" and all(k.op == "kv" and k.args[2] is TRUE and not k.args[3].args for k in c.args):
                m = {k.args[0]: k.args[1] for k in c.args}
                new = ([m.get(x, x) for x in names], rows, labels)
        elif name == "merge" and a and is_table(a[0]):
            return self.merge(b, a[0], {**dict(zip(("how", "on"), a[1:])), **kw}, st)
        elif name == "itertuples" and not a and not kw:
            return None
        elif name == "iterrows" and not a:
            o = self.I.new_obj("list")
            st.heap[(o, "c")] = mk("list", *[mk("seg", mk("tuple", l, self.series(r, names, st)), TRUE, mk("loops")) for l, r in zip(labels, rows)])
            return o
        elif name in ("to_string", "to_markdown", "__str__", "__repr__"):
            return mk("exc", "table", name)
        if new is None or inplace is None:
            return self.unknown(name, b, st=st)
        if name == "transpose":
            keep = [NONE]
        if inplace:
            self.put(b, *new, st)
            st.heap.pop((b, "f", "_n"), None)
            self.named(b, keep, st)
            return NONE
        o = self.frame(*new, st)
        self.named(o, keep, st)
        return o

    def sort(self, d, by, kw, st):
        names, rows, labels = d
        by = [by] if by.op == "const" else self.elements(by, st)
        asc = kw.get("ascending", TRUE)
        asc = [asc] * len(by or ()) if asc.op == "const" else self.elements(asc, st)
        if not by or asc is None or len(asc) != len(by) or any(x not in names for x in by) or any(x.op != "const" for x in asc):
            return None
        ix = [(names.index(x), bool(cval(y))) for x, y in zip(by, asc)]

        def less(r, s):
            for i, up in ix:
                x, y = (r[i], s[i]) if up else (s[i], r[i])
                if x is y:
                    continue
                if x is NONE or y is NONE:
                    raise LookupError
                lt, gt = self.decide(LT(x, y), st), self.decide(LT(y, x), st)
                if lt:
                    return True
                if gt:
                    return False
                if lt is None or gt is None:
                    raise LookupError
            return False
        out = []
        try:
            for n in range(len(rows)):
                j = len(out)
                while j and less(rows[n], rows[out[j - 1]]):
                    j -= 1
                out.insert(j, n)
        except LookupError:
            return None
        lab = [labels[n] for n in out]
        if self.flag(kw, "ignore_index", False):
            lab = self.rng(len(out))
        return names, [rows[n] for n in out], lab

    # -- items
    def item(self, b, key, st, node):
        if b.op == "pdloc":
            return self.loc(b.args[0], b.args[1], key, st)
        if b.args[0] == COL:
            d = self.sdata(b, st)
            if d is not None and key.op == "const" and d[1].count(key) == 1 and all(map(self.plain, d[1])):
                return d[0][d[1].index(key)]
            if d is not None and key.op == "slice" and all(x.op == "const" for x in key.args) and d[1] == self.rng(len(d[1])):
                s = slice(*[cval(x) for x in key.args])
                return self.series(d[0][s], d[1][s], st)
            return self.unknown("item", st=st)
        d = self.data(b, st)
        if d is None:
            return self.unknown("item", st=st)
        if key in d[0]:
            return self.column(d, key, st)
        ks = self.elements(key, st)
        if ks is not None and ks:
            if all(k in d[0] for k in ks) and key.args[0] != COL:
                ix = [d[0].index(k) for k in ks]
                o = self.frame(ks, [[r[i] for i in ix] for r in d[1]], d[2], st)
                self.named(o, self.names(b, st), st)
                return o
            if len(ks) == len(d[1]):
                cs = [True if k is TRUE else False if k is FALSE else self.decide(k, st) if is_bool(k) else None for k in ks]
                if None not in cs:
                    o = self.frame(d[0], [r for r, c in zip(d[1], cs) if c], [l for l, c in zip(d[2], cs) if c], st)
                    self.named(o, self.names(b, st), st)
                    return o
        return self.unknown("item", st=st)

    @staticmethod
    def plain(x):
        return x.op == "const" or x.op == "tuple" and all(y.op == "const" for y in x.args)

    def loc(self, kind, b, key, st):
        if b.args[0] == COL:
            d = self.sdata(b, st)
            if d is not None and key.op == "const":
                if kind in ("iloc", "iat") and type(cval(key)) is int and -len(d[0]) <= cval(key) < len(d[0]):
                    return d[0][cval(key)]
                if kind in ("loc", "at") and d[1].count(key) == 1 and all(map(self.plain, d[1])):
                    return d[0][d[1].index(key)]
            return self.unknown(kind, st=st)
        d = self.data(b, st)
        if d is None:
            return self.unknown(kind, st=st)
        r, c = (key.args[0], key.args[1]) if key.op == "tuple" and len(key.args) == 2 else (key, None)
        if key.op == "tuple" and kind in ("loc", "at") and key in d[2]:
            r, c = key, None
        if not self.plain(r) or c is not None and c.op != "const":
            return self.unknown(kind, st=st)
        if kind in ("iloc", "iat"):
            if type(cval(r)) is not int or not -len(d[1]) <= cval(r) < len(d[1]):
                return self.unknown(kind, st=st)
            row = d[1][cval(r)]
            if c is None:
                return self.series(row, d[0], st)
            return row[cval(c)] if type(cval(c)) is int and -len(row) <= cval(c) < len(row) else self.unknown(kind, st=st)
        if d[2].count(r) != 1 or any(not self.plain(x) for x in d[2]):
            return self.unknown(kind, st=st)
        row = d[1][d[2].index(r)]
        if c is None:
            return self.series(row, d[0], st)
        return row[d[0].index(c)] if c in d[0] else self.unknown(kind, st=st)

    def store(self, b, key, v, st, node):
        """df[name] = values; True when done"""
        if b.op == "pdloc":
            self.unknown("loc", b.args[1], st=st)
            return True
        d = self.data(b, st) if b.args[0] == ROWS else None
        vals = self.elements(v, st) if v.op in ("obj", "list", "tuple", "dview") else [v] * len(d[1]) if d and v.op in ("const", "sym", "add", "mul", "div") else None
        if d is None or key.op != "const" or vals is None or len(vals) != len(d[1]):
            self.unknown("setitem", b, st=st)
            return True
        names, rows, labels = d
        if key in names:
            i = names.index(key)
            self.put(b, names, [r[:i] + [x] + r[i + 1:] for r, x in zip(rows, vals)], labels, st)
        else:
            self.put(b, names + [key], [r + [x] for r, x in zip(rows, vals)], labels, st)
        return True

    # -- operators, element by element
    def each(self, f, a, b, st):
        ds = [self.sdata(x, st) if is_table(x) and x.args[0] == COL else None for x in (a, b)]
        if any(is_table(x) and d is None for x, d in zip((a, b), ds)):
            return self.unknown("operator", st=st)
        if ds[0] and ds[1] and ds[0][1] != ds[1][1]:
            return self.unknown("operator", st=st)
        if any(x is NONE for d in ds if d for x in d[0]):
            return self.unknown("missing values", st=st)
        n, lab = (len(ds[0][0]), ds[0][1]) if ds[0] else (len(ds[1][0]), ds[1][1])
        other = b if ds[0] else a
        if not (ds[0] and ds[1]) and other.op in ("obj", "list", "tuple"):
            return self.unknown("operator", st=st)
        return self.series([f(ds[0][0][i] if ds[0] else a, ds[1][0][i] if ds[1] else b) for i in range(n)], lab, st)
