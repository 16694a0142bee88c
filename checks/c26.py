"""Selection by constants and option strings: which values reach a normal end of the selecting function.

Abstract interpretation of each selecting function over the domain {a given constant, a value equal to none of
the choices, anything}: conditions on the selector are decided, all other conditions go both ways; a call that is
given the selector is followed into the function called."""
import ast
from vf.checklib import Check, run
from vf.project import Project
from vf.names import Names, own, FN, targets

RULES = {
    "reject": "a value that is none of the choices never reaches a normal end of the function that selects by it",
    "handled": "every choice of the family reaches a normal end of the function that selects by it",
    "distinct": "no choice is tested behind another one with the same value",
    "default": "the default of a selecting parameter is one of the choices",
    "passed": "a constant passed to a selecting parameter is one of the choices",
}
CAUGHT = 2                   # the refusal was caught: the answer may be None
SENT, UNK = ("?",), None      # a value equal to no constant; anything
STRM = ("lower", "upper", "strip", "casefold", "lstrip", "rstrip")


def const(v):
    return v is not UNK and v != SENT


class World:
    def __init__(self, p):
        self.p, self.N = p, Names(p)
        self.fns = {}              # id(node) -> (module, node)
        for m in p.mods.values():
            if "alpha_router_orig" in m.name:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, FN):
                    self.fns[id(n)] = (m, n)

    def owner(self, fn):
        return self.N.owner.get(id(fn))

    def label(self, m, fn):
        c = self.owner(fn)
        return (c.qual if c else m.name) + "." + fn.name

    def definition(self, m, fn, e):
        """(module, defining expression) of an upper-case name or attribute"""
        if isinstance(e, ast.Name):
            if not e.id.isupper():
                return None
            c = self.owner(fn)
            for n in own(fn.body):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    return m, n.value
            ds = [s.value for s in m.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
            return (m, ds[0]) if len(ds) == 1 else None
        if not (isinstance(e, ast.Attribute) and e.attr.isupper()):
            return None
        cs = []
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and self.owner(fn):
            cs = [self.owner(fn)]
        else:
            cs = [self.p.classes[a[1]] for a in self.N.typ(m, fn, e.value) or () if a[0] in ("i", "x", "c")]
        for c in cs:
            k = self.p.find_member(c, e.attr)
            if k and k[1][0] == "assign":
                return k[0].mod, k[1][1], k[0]
        return None

    def value(self, m, fn, e, depth=4, cls=None):
        """constant an upper-case name stands for"""
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if depth == 0:
            return UNK
        d = self.definition(m, fn, e)
        if d is None:
            if isinstance(e, ast.Name) and cls is not None and e.id in cls.members and cls.members[e.id][0] == "assign":
                return self.value(m, fn, cls.members[e.id][1], depth - 1, cls)
            if isinstance(e, ast.Attribute) and cls is not None and e.attr.isupper():
                for k in self.p.classes.values():        # Inner.X in the body of the outer class
                    if k.qual == f"{cls.qual}.{ast.unparse(e.value)}" and e.attr in k.members and k.members[e.attr][0] == "assign":
                        return self.value(k.mod, fn, k.members[e.attr][1], depth - 1, k)
            return UNK
        return self.value(d[0], fn, d[1], depth - 1, d[2] if len(d) > 2 else None)

    def callee(self, m, fn, call):
        """(module, function, offset of the first argument) or None"""
        ts = [a for a in self.N.typ(m, fn, call.func) or ()]
        fs = [a for a in ts if a[0] == "f"]
        if len(ts) != 1:
            return None
        if fs:
            k = self.fns.get(id(fs[0][1]))
            if not k:
                return None
            deco = {ast.unparse(d) for d in k[1].decorator_list}
            off = 1 if self.owner(k[1]) is not None and "staticmethod" not in deco and isinstance(call.func, ast.Attribute) else 0
            return k[0], k[1], off
        if ts[0][0] == "c":
            mem = self.p.find_member(self.p.classes[ts[0][1]], "__init__")
            if mem and mem[1][0] == "func" and id(mem[1][1]) in self.fns:
                k = self.fns[id(mem[1][1])]
                return k[0], k[1], 1
        return None

    def bind(self, fn, off, call):
        """{parameter: argument expression}"""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args][off:]
        out = {}
        for n, x in zip(pos, call.args):
            if isinstance(x, ast.Starred):
                break
            out[n] = x
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k in call.keywords:
            if k.arg in names:
                out[k.arg] = k.value
        return out


class Flow:
    """normal ends of a function, for given values of its selector"""

    def __init__(self, w, m, fn, depth=0):
        self.w, self.m, self.fn, self.depth = w, m, fn, depth
        self.exits = set()         # (line, selector was tested on the way)
        self.key = self.keyval = None
        self.sel = None
        self.kind = "str"
        self.none = {}             # line -> the function answers None there
        self.reached, self.true = set(), set()
        self.parts = {}

    def run(self, env, key=None, keyval=None, sel=None, kind="str"):
        """env: values of parameters; key: expression (dump) that has keyval; sel: local name that is keyval whenever it is set to something unknown"""
        self.key, self.keyval, self.sel, self.kind = key, keyval, sel, kind
        out = self.block(self.fn.body, {(frozenset(env.items()), False)})
        for e, t in out:
            self.exits.add((self.fn.body[-1].end_lineno, t))
            self.none[self.fn.body[-1].end_lineno] = True
        return self.exits

    # ------------------------------------------------------------ values
    def val(self, e, d):
        if self.key is not None and ast.dump(e) == self.key:
            return self.keyval
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if isinstance(e, ast.Name) and e.id in d:
            return d[e.id]
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.w.value(self.m, self.fn, e)
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value, d)
        if isinstance(e, ast.Call):
            f = e.func
            if self.table(e) and self.val(e.args[0], d) == SENT:
                return self.val(e.args[1], d) if len(e.args) == 2 else ("c", None)
            if isinstance(f, ast.Attribute) and f.attr in STRM and not e.args:
                v = self.val(f.value, d)
                return v if not const(v) else ("c", getattr(v[1], f.attr)()) if isinstance(v[1], str) else UNK
            if isinstance(f, ast.Name) and f.id == "str" and len(e.args) == 1:
                v = self.val(e.args[0], d)
                return v if v == SENT or const(v) and isinstance(v[1], str) else UNK
            return UNK
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, d)
            r = {self.val(b, d) for b, k in ((e.body, True), (e.orelse, False)) if c in (k, UNK)}
            return r.pop() if len(r) == 1 else UNK
        if isinstance(e, ast.BoolOp) and len(e.values) == 2:
            v = self.val(e.values[0], d)
            if v is UNK:
                return UNK
            t = True if v == SENT else bool(v[1])
            return v if t == isinstance(e.op, ast.Or) else self.val(e.values[1], d)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            v = self.val(e.value, d)
            b = [self.val(x, d) if x is not None else ("c", None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if const(v) and isinstance(v[1], str) and all(const(x) for x in b):
                return ("c", v[1][slice(*[x[1] for x in b])])
        return UNK

    def elements(self, e, d):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return [self.val(x, d) for x in e.elts]
        if isinstance(e, ast.Dict):
            return [self.val(x, d) if x is not None else UNK for x in e.keys]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "copy") and not e.args:
            return self.elements(e.func.value, d)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "tuple", "list", "frozenset", "dict") and len(e.args) == 1 and not e.keywords:
            return self.elements(e.args[0], d)
        x = None
        if isinstance(e, ast.Name) and not e.id.isupper():
            ds = [n.value for n in own(self.fn.body) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name) and t.id == e.id]
            x = (self.m, ds[0], None) if len(ds) == 1 else None
        elif isinstance(e, (ast.Name, ast.Attribute)):
            x = self.w.definition(self.m, self.fn, e)
        if x is None or not isinstance(x[1], (ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Call)):
            return None
        if isinstance(x[1], (ast.Tuple, ast.List, ast.Set, ast.Dict)):
            es = x[1].keys if isinstance(x[1], ast.Dict) else x[1].elts
            return [UNK if y is None else self.w.value(x[0], self.fn, y, cls=x[2] if len(x) > 2 else None) for y in es]
        return None

    def cond(self, e, d):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.cond(e.operand, d)
            return UNK if v is UNK else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.cond(x, d) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            return stop if any(v is stop for v in vs) else UNK if any(v is UNK for v in vs) else not stop
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1:
                return UNK
            a, b, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                x, y = self.val(a, d), self.val(b, d)
                pos = isinstance(op, (ast.Eq, ast.Is))
                if x is UNK or y is UNK or x == y == SENT:
                    return UNK
                if SENT in (x, y):
                    return not pos
                return (x[1] == y[1]) == pos
            if isinstance(op, (ast.In, ast.NotIn)):
                x, es = self.val(a, d), self.elements(b, d)
                pos = isinstance(op, ast.In)
                if x is UNK or es is None:
                    return UNK
                if const(x) and any(const(y) and y[1] == x[1] for y in es):
                    return pos
                return UNK if any(not const(y) for y in es) else not pos
            return UNK
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            v, t = self.val(e.args[0], d), ast.unparse(e.args[1])
            if v is UNK or t not in ("str", "int", "float", "bool", "dict", "list", "tuple", "set"):
                return UNK
            return (self.kind if v == SENT else type(v[1]).__name__) == t
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "bool") and len(e.args) == 1 and not isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.cond(e.args[0], d) if e.func.id == "bool" else UNK
        v = self.val(e, d)
        return True if v == SENT else UNK if v is UNK else bool(v[1])

    def table(self, e):
        """the look-up answers a key that is not in the table with one of the table's own values"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and len(e.args) in (1, 2) and not e.keywords):
            return None
        x = self.w.definition(self.m, self.fn, e.func.value) if isinstance(e.func.value, (ast.Name, ast.Attribute)) else (self.m, e.func.value) if isinstance(e.func.value, ast.Dict) else None
        if x is None and isinstance(e.func.value, ast.Name):
            ds = [n.value for n in own(self.fn.body) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name) and t.id == e.func.value.id]
            x = (self.m, ds[0]) if len(ds) == 1 else None
        if x is None or not isinstance(x[1], ast.Dict) or len(x[1].keys) < 2:
            return None
        if len(e.args) == 1 or isinstance(e.args[1], ast.Constant):      # nothing found: None; a table of things to do is no table of defaults
            if any(isinstance(v, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.Call, ast.Tuple, ast.List, ast.Dict)) for v in x[1].values):
                return None
        elif ast.unparse(e.args[1]) not in {ast.unparse(v) for v in x[1].values}:
            return None
        es = self.elements(e.func.value, {})
        return es if es and all(const(v) and isinstance(v[1], str) for v in es) else None

    def tests(self, e, d):
        """the condition compares the selector, which is none of the choices, with a choice"""
        for x in ast.walk(e):
            if self.table(x) and self.val(x.args[0], d) == SENT:
                return True
            if isinstance(x, ast.Compare) and any(self.val(y, d) == SENT for y in [x.left] + x.comparators):
                if not any(isinstance(y, ast.Constant) and y.value is None for y in x.comparators):
                    return True
        return False

    def split(self, e, st):
        yes, no = set(), set()
        for env, t in self.called(e, st):
            d = dict(env)
            v = self.cond(e, d)
            for x in ast.walk(e):
                if isinstance(x, ast.Compare):
                    self.reached.add(id(x))
                    if self.cond(x, d) is not False:
                        self.true.add(id(x))
            t = t or self.tests(e, d)
            if v is not False:
                yes.add((env, t))
            if v is not True:
                no.add((env, t))
        return yes, no

    # ------------------------------------------------------------ statements
    def maybe(self, e):
        """parts of an expression that are not always evaluated"""
        if id(e) not in self.parts:
            out = set()
            for x in ast.walk(e):
                for y in (x.body, x.orelse) if isinstance(x, ast.IfExp) else x.values[1:] if isinstance(x, ast.BoolOp) else ():
                    out |= {id(z) for z in ast.walk(y)}
            self.parts[id(e)] = out
        return self.parts[id(e)]

    def called(self, e, st):
        """states that survive the calls and look-ups inside an expression"""
        if e is None:
            return st
        for c in own([ast.Expr(e)]) if not isinstance(e, ast.Lambda) else ():
            if isinstance(c, ast.Subscript) and isinstance(c.ctx, ast.Load) and not isinstance(c.slice, ast.Slice):
                keep = set()
                for env, t in st:
                    d = dict(env)
                    if id(c) in self.maybe(e):
                        keep.add((env, t))
                        continue
                    v = self.val(c.slice, d)
                    es = self.elements(c.value, d) if v is not UNK else None
                    if es is not None and all(const(y) for y in es) and not (const(v) and any(y[1] == v[1] for y in es)) and isinstance(v, tuple) and (v == SENT or isinstance(v[1], str)):
                        continue                      # not among the keys: fails
                    keep.add((env, t))
                st = keep
            if not isinstance(c, ast.Call) or self.depth > 2:
                continue
            keep = set()
            for env, t in st:
                d = dict(env)
                given = [self.val(a, d) for a in c.args] + [self.val(k.value, d) for k in c.keywords]
                if self.keyval == SENT and SENT not in given or self.keyval != SENT and not (self.keyval is not UNK and self.keyval in given):
                    keep.add((env, t))
                    continue
                k = self.w.callee(self.m, self.fn, c)
                if k is None or k[1] is self.fn or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(k[1].body)):
                    keep.add((env, t))
                    continue
                b = {n: self.val(x, d) for n, x in self.w.bind(k[1], k[2], c).items()}
                f = Flow(self.w, k[0], k[1], self.depth + 1)
                if f.run({n: v for n, v in b.items() if v is not UNK}, keyval=self.keyval, kind=self.kind):
                    keep.add((env, t))
            st = keep
        return st

    def block(self, body, st):
        for s in body:
            if not st:
                return st
            st = self.stmt(s, st)
        return st

    def put(self, st, t, v):
        """assignment of an abstract value (or a function env -> value) to a target"""
        out = set()
        for env, k in st:
            d = dict(env)
            x = v(d) if callable(v) else v
            if isinstance(t, ast.Name):
                if x is UNK and t.id == self.sel:
                    x = self.keyval
                if x is UNK:
                    if t.id in d:
                        d[t.id] = UNK
                elif x == SENT or x == ("c", None) or t.id in d or t.id == self.sel or x == self.keyval:
                    d[t.id] = x
            else:
                for y in targets(t):
                    if y == self.sel:
                        d[y] = self.keyval
                    elif y in d:
                        d[y] = UNK
            out.add((frozenset(d.items()), k))
        return out

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            for env, t in self.called(s.value, st):
                d = dict(env)
                t = t or s.value is not None and any(self.tests(x.test if isinstance(x, ast.IfExp) else x, d) for x in ast.walk(s.value) if isinstance(x, ast.IfExp) or self.table(x))
                self.exits.add((s.lineno, t))
                self.none[s.lineno] = s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None
            return set()
        if isinstance(s, ast.Raise):
            return set()
        if isinstance(s, ast.Assert):
            return self.split(s.test, st)[0]
        if isinstance(s, ast.If):
            yes, no = self.split(s.test, st)
            return self.block(s.body, yes) | self.block(s.orelse, no)
        if isinstance(s, ast.Expr):
            return self.called(s.value, st)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            st = self.called(s.value, st)
            if s.value is None:
                return st
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                st = self.put(st, t, lambda d: self.val(s.value, d))
            ifs = [x.test for x in ast.walk(s.value) if isinstance(x, ast.IfExp)] + [x for x in ast.walk(s.value) if self.table(x)]
            return {(e, t or any(self.tests(x, dict(e)) for x in ifs)) for e, t in st}
        if isinstance(s, ast.AugAssign):
            return self.put(self.called(s.value, st), s.target, UNK)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.called(s.iter, st)
            b = set(st)
            for _ in range(3):
                n = b | self.block(s.body, self.put(b, s.target, UNK))
                if n == b:
                    break
                b = n
            return self.block(s.orelse, b)
        if isinstance(s, ast.While):
            b = set(st)
            for _ in range(3):
                n = b | self.block(s.body, self.split(s.test, b)[0])
                if n == b:
                    break
                b = n
            return self.block(s.orelse, self.split(s.test, b)[1]) | (b if any(isinstance(x, ast.Break) for x in own(s.body)) else set())
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            # a handler runs for other failures as well: from the states before the body
            a = self.block(s.orelse, self.block(s.body, st))
            h = set()
            def failed(q):
                f = Flow(self.w, self.m, self.fn, self.depth)
                f.key, f.keyval, f.sel, f.kind = self.key, self.keyval, self.sel, self.kind
                return not f.block(s.body, {q}) and not f.exits
            st = {(e, t or (CAUGHT if self.keyval == SENT and failed((e, t)) else False)) for e, t in st}     # refused, and the refusal caught
            for x in s.handlers:
                h |= self.block(x.body, st)
            return self.block(s.finalbody, a | h)
        return st


def sites(w):
    """selectors: (module, function, name or expression, {choice value: how it is written}, class of the constants)"""
    for m, fn in w.fns.values():
        g = {}
        par = {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        f = Flow(w, m, fn)
        for x in own(fn.body):
            if not (isinstance(x, ast.Compare) and len(x.ops) == 1):
                continue
            l, r = x.left, x.comparators[0]
            if isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                for a, b in ((l, r), (r, l)):
                    v = w.value(m, fn, b)
                    if const(v) and type(v[1]) in (str, int) and v[1] != "" and not isinstance(a, ast.Constant) and (isinstance(v[1], str) or not isinstance(b, ast.Constant)):
                        g.setdefault(ast.dump(a), (a, []))[1].append((v[1], b))
            elif isinstance(x.ops[0], (ast.In, ast.NotIn)):
                es = f.elements(r, {})
                if es and all(const(v) and type(v[1]) in (str, int) for v in es) and not isinstance(l, ast.Constant):
                    for v in es:
                        g.setdefault(ast.dump(l), (l, []))[1].append((v[1], r))
        for x in own(fn.body):
            for v in f.table(x) or ():
                g.setdefault(ast.dump(x.args[0]), (x.args[0], []))[1].append((v[1], x.func.value))
            # look-ups in a literal table
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Name):
                es = f.elements(x.value, {})
                if es and all(const(v) and isinstance(v[1], str) for v in es):
                    for v in es:
                        g.setdefault(ast.dump(x.slice), (x.slice, []))[1].append((v[1], x.value))
        for k, (e, vs) in g.items():
            while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in STRM and isinstance(e.func.value, ast.Name):
                e = e.func.value
            named = [b for v, b in vs if isinstance(b, ast.Attribute)]
            if isinstance(e, ast.Name) and e.id in par:
                ok = len({v for v, b in vs}) >= 2 or named
            elif isinstance(e, ast.Name):
                ok = len({v for v, b in vs}) >= 2 and all(isinstance(v, str) for v, b in vs)
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and not e.attr.startswith("_"):
                ok = fn.name in ("__init__", "__post_init__") and (len({v for v, b in vs}) >= 2 or named)
            else:
                ok = len({v for v, b in vs}) >= 2 and isinstance(e, (ast.Call, ast.Subscript))
            if ok:
                yield m, fn, e, vs, e.id if isinstance(e, ast.Name) and e.id in par else None


def prefix(names):
    a, b = min(names), max(names)
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[:n]


def family(w, site, others):
    """all constants that belong with the ones tested: of the same class, with the names' common beginning, and not tested where
    another thing is selected"""
    m, fn, e, vs, par = site
    out = {v: ast.unparse(b) for v, b in vs}
    cs = {}
    for v, b in vs:
        if isinstance(b, ast.Attribute):
            d = w.definition(m, fn, b)
            if d is not None and len(d) == 3:
                cs.setdefault(d[2].qual, (d, []))[1].append((b.attr, v))
    for d, ns in cs.values():
        pre = prefix([n for n, v in ns]) if len({n for n, v in ns}) > 1 else ""
        if "_" not in pre:
            continue
        foreign = set()
        for o in others:
            seen = {b.attr for v, b in o[3] if isinstance(b, ast.Attribute)}
            if not seen & {n for n, v in ns}:
                foreign |= seen
        for n, mem in d[2].members.items():
            if n.isupper() and n.startswith(pre) and n not in foreign and mem[0] == "assign":
                x = w.value(d[0], fn, mem[1], cls=d[2])
                if const(x) and type(x[1]) in {type(v) for _, v in ns}:
                    out.setdefault(x[1], n)
    return out


class Site:
    def __init__(self, w, site):
        self.w = w
        self.m, self.fn, self.e, self.vs, self.par = site
        self.kind = "str" if any(isinstance(v, str) for v, b in self.vs) else "int"
        self.name = f"{w.label(self.m, self.fn)}: {ast.unparse(self.e)}"
        self.memo = {}

    def flow(self, v):
        k = (v, type(v[1]) if len(v) > 1 else None)
        if k not in self.memo:
            f = Flow(self.w, self.m, self.fn)
            a = dict(keyval=v, kind=self.kind)
            if self.par:
                f.run({self.par: v}, **a)
            elif isinstance(self.e, ast.Name):
                f.run({}, sel=self.e.id, **a)
            else:
                f.run({}, key=ast.dump(self.e), **a)
            self.memo[k] = f
        return self.memo[k]


# constants whose declared behaviour is to be refused, and functions whose declared answer to a wrong choice is a message and None
REFUSED = {("carbon.helpers.cryptocompare.CryptoCompare", "POST")}     # documented as not implemented
ANSWERS_NONE = {("carbon.pair.CarbonPair", "limit_is_met")}            # None is its documented answer to an unknown side


def refused(lab, v):
    return (lab.rsplit(".", 1)[0], v) in REFUSED


def answers_none(lab):
    c, n = lab.rsplit(".", 1)
    return any(c == k and x in n for k, x in ANSWERS_NONE)


def main():
    ck = Check("C26", "Every selectable mode is handled and unknown modes are rejected", RULES, floor=70, assumptions=[
        "a raise or a failing assert is how a function rejects a value (C06 and C07 decide what happens to it further up)",
        "a function selects by a value if it compares a parameter, a constructor field or a local name with two or more constants, or with a named constant"])
    p = Project()
    w = World(p)
    every = list(sites(w))
    bypar = {}
    for t in every:
        s = Site(w, t)
        rel = p.rel(s.m.path)
        lab = w.label(s.m, s.fn)
        ck.functions.add(lab)
        ck.count("selectors")
        f = s.flow(SENT)
        acc = sorted({l for l, k in f.exits if k and not (k == CAUGHT and f.none.get(l))})
        if answers_none(lab):
            acc = [l for l in acc if not f.none.get(l)]
        ck.decide(not acc, "reject", s.name, f"a value that is none of {', '.join(sorted({repr(v) for v, b in s.vs}))} reaches the normal end at line {acc[0] if acc else 0}", f"{rel}:{acc[0] if acc else 0}")
        fam = family(w, t, [o for o in every if o is not t])
        for v, n in fam.items():
            f = s.flow(("c", v))
            if refused(lab, v):
                continue
            ck.decide(bool(f.exits), "handled", f"{s.name} = {n.split('.')[-1] if '.' in n else repr(v)}", f"the choice {n} ({v!r}) always ends in an error", f"{rel}:{s.fn.lineno}")
        base = set(s.flow(SENT).reached)
        for x in own(s.fn.body):
            if isinstance(x, ast.Compare) and id(x) in base and isinstance(x.ops[0], (ast.Eq, ast.Is, ast.In)):
                vals = {v for v, b in s.vs if b is x.comparators[0] or b is x.left}
                if vals:
                    live = any(id(x) in s.flow(("c", v)).true for v in vals)
                    ck.decide(live, "distinct", f"{s.name} == {'/'.join(sorted(map(str, vals)))}", "this choice is never reached: an earlier test has the same value", f"{rel}:{x.lineno}")
        if s.par:
            bypar.setdefault(id(s.fn), []).append(s)
            a = s.fn.args
            pos = a.posonlyargs + a.args
            dflt = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
            dflt.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
            if s.par in dflt:
                v = w.value(s.m, s.fn, dflt[s.par], cls=w.owner(s.fn))
                if const(v) and v[1] is not None:       # a default None that is refused makes the parameter mandatory
                    ck.decide(bool(s.flow(v).exits), "default", s.name, f"the default {ast.unparse(dflt[s.par])} ({v[1]!r}) always ends in an error", f"{rel}:{s.fn.lineno}")
    for m, fn in w.fns.values():
        for c in own(fn.body):
            if not isinstance(c, ast.Call):
                continue
            k = w.callee(m, fn, c)
            if k is None or id(k[1]) not in bypar:
                continue
            b = w.bind(k[1], k[2], c)
            for s in bypar[id(k[1])]:
                if s.par in b:
                    v = w.value(m, fn, b[s.par])
                    if const(v):
                        ck.callsites += 1
                        ck.decide(bool(s.flow(v).exits) or refused(w.label(s.m, s.fn), v[1]), "passed", f"{w.label(m, fn)} -> {s.name}", f"passes {ast.unparse(b[s.par])} ({v[1]!r}), which is always refused", f"{p.rel(m.path)}:{c.lineno}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
