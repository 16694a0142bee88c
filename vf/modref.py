"""Interprocedural modification and aliasing analysis (flow-sensitive inside a function, summary-based across calls).

Every value carries the places it may be (origins) and the places it may contain. A place is a root - a parameter, a
module-level object, a class-level object, a default-argument object - and a path of attributes and items below it.
A function's summary is what it may modify, what it stores where, and what its result may be."""
import ast
from .project import deco_name

MAXPATH = 3
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse",
            "appendleft", "popleft", "extendleft", "__setitem__", "__delitem__", "intersection_update", "difference_update",
            "symmetric_difference_update", "fill", "put", "itemset", "resize", "__setattr__", "__delattr__", "__iadd__"}
ELEMENTS = {"items", "values", "get", "pop", "popitem", "setdefault", "iloc", "loc", "__getitem__", "popleft"}
SHELL = {"list", "dict", "set", "tuple", "frozenset", "sorted", "reversed", "enumerate", "zip", "filter", "map", "iter", "copy", "OrderedDict", "defaultdict", "deque", "chain", "product", "permutations", "combinations"}
IMMUT_CALLS = {"str", "int", "float", "bool", "len", "abs", "round", "Decimal", "type", "repr", "isinstance", "hasattr", "print", "format", "hash", "id",
               "deepcopy", "frozenset", "namedtuple", "_namedtuple", "NewType", "field", "getcontext", "TypeVar", "getLogger", "compile", "log10"}


class V:
    __slots__ = ("o", "c", "t", "k")

    def __init__(self, o=frozenset(), c=frozenset(), t=None, k=None):
        self.o, self.c, self.t, self.k = frozenset(o), frozenset(c), t, k      # k: class object itself

    def join(self, b):
        if b is self:
            return self
        return V(self.o | b.o, self.c | b.c, self.t if self.t == b.t else (self.t or b.t), self.k if self.k == b.k else None)

    def elem(self, step="[]"):
        o, d = inside(self.c, step)
        return V({ext(x, step) for x in self.o} | o, d)

    @property
    def all(self):
        return self.o | frozenset(x[:2] for x in self.c)

    def put(self, step="[]"):
        """contents of an object that holds this value under `step`"""
        return frozenset((r, p, (step,)) for r, p in self.o) | frozenset((r, p, cut((step,) + t)) for r, p, t in self.c)

    def anywhere(self):
        return frozenset((r, p, ("*",)) for r, p in self.all)

    def key(self):
        return self.o, self.c, self.t, self.k


EMPTY = V()


def cut(t):
    return t if len(t) <= 3 else t[:3] + ("*",)


def inside(c, step):
    """(held, deeper): what is held directly under `step`, and the contents of that.  The contents of a value carry the
    steps that lead to them; '*' stands for any number of steps."""
    o, d = set(), set()
    for x in c:
        t = x[2]
        if t[0] == "*":
            o.add(x[:2])
            d.add(x)
        elif t[0] == step or step == "*":
            if len(t) == 1:
                o.add(x[:2])
            else:
                d.add(x[:2] + (t[1:],))
                if t[1] == "*":
                    o.add(x[:2])
    return o, d


def ext(o, step):
    root, path = o
    if len(path) >= MAXPATH:
        return o
    return root, path + (step,)


class Fn:
    def __init__(self, node, mod, cls, kind, qual):
        self.node, self.mod, self.cls, self.kind, self.qual = node, mod, cls, kind, qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.mods = {}           # (origin, attr) -> (line, how)
        self.when = {}           # (origin, attr) -> parameters that must be true for it
        self.stores = {}         # (target origin, attr, value origin) -> line
        self.ret = EMPTY
        self.calls = 0
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.rebinds = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def state(self):
        return len(self.mods), len(self.stores), self.ret.key(), sum(map(len, self.when.values()))


def is_mutable_expr(p, mod, e):
    """class qual / True when the expression builds a mutable object"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = deco_name(e)
        if n == "field":
            for kw in e.keywords:
                if kw.arg == "default":
                    return is_mutable_expr(p, mod, kw.value)
            return False
        r = p.resolve_expr(mod, e.func)
        if r and r[0] == "class":
            return r[1] if not frozen(p, p.classes[r[1]]) else False
        if n in ("list", "dict", "set", "count", "cycle", "iter", "bytearray", "defaultdict", "OrderedDict", "deque", "Counter", "DataFrame", "array", "zeros", "ones"):
            return True
        if r and r[0] in ("func",):
            return False
        if isinstance(e.func, ast.Attribute):
            b = p.resolve_expr(mod, e.func.value)
            if b and b[0] == "class":
                k = p.find_member(p.classes[b[1]], e.func.attr)
                if k and k[1][0] == "clsm" and not frozen(p, p.classes[b[1]]):
                    return b[1]
    return False


def frozen(p, c):
    for k in p.mro(c):
        for d in k.node.decorator_list:
            if isinstance(d, ast.Name):
                # @name with  name = dataclass(...)
                vs = [n.value for n in ast.walk(k.mod.tree) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d.id for t in n.targets)]
                d = vs[-1] if vs else d
            if isinstance(d, ast.Call) and deco_name(d) == "dataclass":
                for kw in d.keywords:
                    if kw.arg == "frozen" and isinstance(kw.value, ast.Constant) and kw.value.value is True:
                        return True
    return False


class ModRef:
    def __init__(self, p, skip=()):
        self.p = p
        self.fns = {}             # id(node) -> Fn
        self.byname = {}          # method name -> [Fn]
        self.clsfns = {}
        self.fieldt = {}          # (class qual, attr) -> class qual
        for m in p.mods.values():
            if any(m.name.startswith(s) for s in skip):
                continue
            for n in m.tree.body:
                self._collect(n, m, None)
        for c in p.classes.values():
            if any(c.mod.name.startswith(s) for s in skip):
                continue
            for name, (kind, node) in list(c.members.items()) + [(n, ("setter", s)) for n, s in c.setters.items()]:
                if kind in ("func", "prop", "static", "clsm", "setter") and isinstance(node, ast.FunctionDef):
                    self._mk(node, c.mod, c, kind)
        self._fieldtypes()
        self.solve()

    def _collect(self, n, m, cls):
        if isinstance(n, ast.FunctionDef) and cls is None:
            self._mk(n, m, None, "func")
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            for s in n.body + getattr(n, "orelse", []):
                self._collect(s, m, cls)

    def _mk(self, node, m, cls, kind):
        if id(node) in self.fns:
            return
        f = Fn(node, m, cls, kind, (cls.qual if cls else m.name) + "." + node.name)
        self.fns[id(node)] = f
        if cls is not None and kind in ("func", "prop"):
            self.byname.setdefault(node.name, []).append(f)

    # ------------------------------------------------------------------ types
    def ann_cls(self, mod, ann, cls=None):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(mod, ann)
            if r is None and cls is not None and isinstance(ann, ast.Name):
                k = self.p.find_member(cls, ann.id)
                if k and k[1][0] == "class":
                    return k[1][1]
            if r and r[0] == "assign":
                r = self.p.resolve_expr(r[1], r[2])
            if r and r[0] == "class":
                return r[1]
        return None

    def _fieldtypes(self):
        p = self.p
        for c in p.classes.values():
            for n, ann, d in c.fields:
                t = self.ann_cls(c.mod.name, ann, c)
                if t:
                    self.fieldt[(c.qual, n)] = t
            for nm in ("__init__", "__post_init__"):
                k = c.members.get(nm)
                if k and k[0] == "func":
                    anns = {a.arg: a.annotation for a in k[1].args.args}
                    for s in ast.walk(k[1]):
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "self":
                            t = None
                            if isinstance(s.value, ast.Call):
                                r = p.resolve_expr(c.mod.name, s.value.func)
                                if r and r[0] == "class":
                                    t = r[1]
                            elif isinstance(s.value, ast.Name) and s.value.id in anns:
                                t = self.ann_cls(c.mod.name, anns[s.value.id], c)
                            if t:
                                self.fieldt.setdefault((c.qual, s.targets[0].attr), t)

    def ftype(self, qual, attr):
        for k in self.p.mro(self.p.classes[qual]):
            t = self.fieldt.get((k.qual, attr))
            if t:
                return t
        return None

    def class_mutable(self, qual, attr):
        """root of a mutable class-level value visible as self.attr"""
        for k in self.p.mro(self.p.classes[qual]):
            if attr in k.members:
                kind, e = k.members[attr]
                if kind == "assign" and is_mutable_expr(self.p, k.mod.name, e) and not self.rebound(qual, attr):
                    return ("C", k.qual, attr)
                return None
        return None

    def rebound(self, qual, attr):
        """the constructor unconditionally gives every instance its own value"""
        for k in self.p.mro(self.p.classes[qual]):
            for nm in ("__init__", "__post_init__"):
                f = k.members.get(nm)
                if f and f[0] == "func":
                    for s in f[1].body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in s.targets):
                            return True
        return False

    # ------------------------------------------------------------------ solving
    def solve(self, rounds=8):
        for r in range(rounds):
            changed = False
            for f in list(self.fns.values()):
                s0 = f.state()
                Walk(self, f).run()
                if f.state() != s0:
                    changed = True
            if not changed:
                break
        self.rounds = r + 1

    def fn(self, node):
        return self.fns.get(id(node))

    def method(self, qual, name):
        k = self.p.find_member(self.p.classes[qual], name)
        if k and k[1][0] in ("func", "prop", "static", "clsm"):
            return self.fns.get(id(k[1][1])), k[1][0]
        return None, None


class Walk:
    def __init__(self, mr, f):
        self.mr, self.p, self.f = mr, mr.p, f
        self.mod = f.mod.name
        self.conds = []

    def run(self):
        f = self.f
        env = {}
        a = f.node.args
        defaults = {}
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        anns = {x.arg: x.annotation for x in pos + a.kwonlyargs}
        for i, n in enumerate(f.params):
            o = {(("P", i), ())}
            if n in (f.vararg, f.kwarg):
                env[n] = V(frozenset(), {(("P", i), ("[]",), ("[]",))})
                continue
            d = defaults.get(n)
            if d is not None and is_mutable_expr(self.p, self.mod, d):
                o.add((("D", f.qual, n), ()))
            elif isinstance(d, (ast.Name, ast.Attribute)):
                o |= {x for x in self.ev(d, {}).o if x[0][0] in "GC"}
            t = self.mr.ann_cls(self.mod, anns.get(n), f.cls)
            k = None
            if i == 0 and f.cls is not None:
                if f.kind in ("func", "prop", "setter"):
                    t = f.cls.qual
                elif f.kind == "clsm":
                    k = f.cls.qual
                    o = {(("K", f.cls.qual), ())}
            env[n] = V(o, frozenset(), t, k)
        self.ret = None
        self.globals = set()
        self.block(f.node.body, env)
        if self.ret is not None:
            f.ret = f.ret.join(self.ret) if f.ret is not EMPTY else self.ret
        if f.ret.t is None:
            t = self.mr.ann_cls(self.mod, f.node.returns, f.cls)
            if t:
                f.ret = V(f.ret.o, f.ret.c, t)

    # ------------------------------------------------------------------ recording
    def modify(self, v, attr, node, how, contents=False):
        for o in (v.all if contents else v.o):
            self.rec((o, attr), getattr(node, "lineno", 0), how)

    def rec(self, key, ln, how):
        if key in self.f.mods:
            if self.f.when.get(key):
                self.f.when[key] = self.f.when[key] & frozenset(self.conds)
            return
        self.f.mods[key] = (ln, how)
        if self.conds:
            self.f.when[key] = frozenset(self.conds)

    def given(self, fn, flag, args, kw, e):
        """the expression a call gives for a parameter of the callee, or None"""
        if not isinstance(e, ast.Call) or any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        for k in e.keywords:
            if k.arg == flag:
                return k.value
        if flag in kw:
            return None
        if flag in fn.pos and fn.pos.index(flag) < len(args):
            i = fn.pos.index(flag) - (len(args) - len(e.args))
            return e.args[i] if 0 <= i < len(e.args) else None
        return fn.defaults.get(flag)

    def off(self, fn, flag, args, kw, e):
        """the call certainly leaves this parameter of the callee false"""
        d = self.given(fn, flag, args, kw, e)
        return isinstance(d, ast.Constant) and not d.value

    def passed(self, fn, flags, args, kw, e):
        """own parameters the call hands on as these parameters of the callee"""
        ds = [self.given(fn, fl, args, kw, e) for fl in flags]
        return [d.id for d in ds if isinstance(d, ast.Name) and self.plain(d.id)]

    def store(self, tgt, attr, val, node):
        for o in tgt.o:
            for x in val.o:
                self.f.stores.setdefault((o, attr, x), getattr(node, "lineno", 0))
            for x in val.c:
                self.f.stores.setdefault((o, "/".join(((attr or "[]",) + x[2])[:3]), x[:2]), getattr(node, "lineno", 0))

    # ------------------------------------------------------------------ statements
    @staticmethod
    def joinenv(a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k, v in b.items():
            r[k] = r[k].join(v) if k in r else v
        return r

    def block(self, body, env):
        """env is updated in place; returns False when control does not continue"""
        n = len(self.conds)
        try:
            for s in body:
                if self.stmt(s, env) is False:
                    return False
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and \
                        self.plain(s.test.operand) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    self.conds.append(s.test.operand.id)    # what follows runs only when it is set
            return True
        finally:
            del self.conds[n:]

    def plain(self, t):
        """a parameter of this function that is never rebound"""
        t = t if not isinstance(t, str) else ast.Name(t, ast.Load())
        return isinstance(t, ast.Name) and t.id in self.f.params[1 if self.f.cls is not None else 0:] and t.id not in self.f.rebinds

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.assign(s.target, v, env, s, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                cur = env.get(s.target.id)
                if s.target.id in self.globals:
                    self.f.mods.setdefault(((("G", self.mod, s.target.id), ()), None), (s.lineno, "global assignment"))
                if cur is None:
                    cur = self.ev(s.target, env)
                if isinstance(s.value, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.SetComp, ast.DictComp)) or isinstance(s.op, ast.BitOr) and isinstance(s.value, (ast.Set, ast.Dict)) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("list", "set", "dict", "sorted"):
                    self.modify(cur, None, s, "augmented assignment")
                    env[s.target.id] = V(cur.o, cur.c | v.c, cur.t)
                else:
                    env[s.target.id] = V(frozenset(), cur.c | v.c, cur.t)
            else:
                self.assign(s.target, V(), env, s, None)
        elif isinstance(s, (ast.Return,)):
            v = self.ev(s.value, env) if s.value is not None else EMPTY
            self.ret = v if self.ret is None else self.ret.join(v)
            return False
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            e1, e2 = dict(env), dict(env)
            t, body, orelse, x1, x2 = s.test, s.body, s.orelse, e1, e2
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, body, orelse, x1, x2 = t.operand, s.orelse, s.body, e2, e1
            flag = self.plain(t)
            if flag:
                self.conds.append(t.id)
            r1 = self.block(body, x1)
            if flag:
                self.conds.pop()
            r2 = self.block(orelse, x2)
            if x1 is not e1:
                r1, r2 = r2, r1
            if r1 is False and r2 is False:
                return False
            j = e2 if r1 is False else e1 if r2 is False else self.joinenv(e1, e2)
            env.clear()
            env.update(j)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            for _ in range(2):
                e1 = dict(env)
                self.assign(s.target, self.iterelem(s.iter, it, env), e1, s, None)
                self.block(s.body, e1)
                j = self.joinenv(env, e1)
                env.clear()
                env.update(j)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                e1 = dict(env)
                self.block(s.body, e1)
                j = self.joinenv(env, e1)
                env.clear()
                env.update(j)
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            pre = dict(env)
            r = self.block(s.body, env)
            outs = [] if r is False else [dict(env)]
            mid = self.joinenv(pre, env)
            if r is not False and s.orelse:
                e = dict(env)
                if self.block(s.orelse, e) is False:
                    outs = []
                else:
                    outs = [e]
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = EMPTY
                if self.block(h.body, e) is not False:
                    outs.append(e)
            if not outs:
                self.block(s.finalbody, mid)
                return False
            j = outs[0]
            for o in outs[1:]:
                j = self.joinenv(j, o)
            env.clear()
            env.update(j)
            if self.block(s.finalbody, env) is False:
                return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return False
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
            if s.msg is not None:
                self.ev(s.msg, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.modify(self.ev(t.value, env), None, s, "del item")
                elif isinstance(t, ast.Attribute):
                    self.modify(self.ev(t.value, env), t.attr, s, "del attribute")
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None
        elif isinstance(s, ast.FunctionDef):
            e = dict(env)
            for i, a in enumerate(s.args.posonlyargs + s.args.args + s.args.kwonlyargs):
                e[a.arg] = V(t=self.mr.ann_cls(self.mod, a.annotation, self.f.cls))
            keep, self.ret = self.ret, None
            self.block(s.body, e)
            r, self.ret = self.ret, keep
            env[s.name] = V(c=(r.anywhere() if r is not None else frozenset()))
        elif isinstance(s, ast.Import) or isinstance(s, ast.ImportFrom):
            pass
        return None

    def assign(self, t, v, env, s, src):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.f.mods.setdefault(((("G", self.mod, t.id), ()), None), (s.lineno, "global assignment"))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vals = [self.ev(x, env) for x in src.elts]
                for x, w in zip(t.elts, vals):
                    self.assign(x, w, env, s, None)
            else:
                for x in t.elts:
                    self.assign(x, v.elem(), env, s, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V(frozenset(), v.elem().put()), env, s, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            st = None
            if b.t in self.p.classes:
                st = self.p.find_setter(self.p.classes[b.t], t.attr)
            if st is not None and self.mr.fn(st[1]) is not None:
                self.apply(self.mr.fn(st[1]), [b, v], {}, s, env)
            else:
                self.modify(b, t.attr, s, "attribute assignment")
                self.store(b, t.attr, v, s)
            self.grow(t.value, v.put(t.attr), env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.modify(b, None, s, "item assignment")
            self.store(b, None, v, s)
            self.grow(t.value, v.put(), env)

    def grow(self, e, c, env):
        """the object named by expression e now also has the contents c"""
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            st = e.attr if isinstance(e, ast.Attribute) else "[]"
            c = frozenset((r, p, cut((st,) + t)) for r, p, t in c)
            e = e.value
        if isinstance(e, ast.Name) and e.id in env:
            w = env[e.id]
            if not c <= w.c:
                env[e.id] = V(w.o, w.c | c, w.t, w.k)

    # ------------------------------------------------------------------ expressions
    def iterelem(self, e, v, env):
        return v.elem()

    def ev(self, e, env):
        if e is None:
            return EMPTY
        if isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.gname(e.id)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.BoolOp):
            v = EMPTY
            for x in e.values:
                v = v.join(self.ev(x, env))
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env).join(self.ev(e.orelse, env))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            c = frozenset()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    c |= self.ev(x.value, env).elem().put()
                else:
                    c |= self.ev(x, env).put()
            return V(frozenset(), c)
        if isinstance(e, ast.Dict):
            c = frozenset()
            for k, x in zip(e.keys, e.values):
                if k is None:
                    c |= self.ev(x, env).elem().put()
                else:
                    self.ev(k, env)
                    c |= self.ev(x, env).put()
            return V(frozenset(), c)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, e2)
                self.assign(g.target, self.iterelem(g.iter, it, e2), e2, e, None)
                for c in g.ifs:
                    self.ev(c, e2)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, e2)
                return V(frozenset(), self.ev(e.value, e2).put())
            return V(frozenset(), self.ev(e.elt, e2).put())
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                return V(frozenset(), b.elem().put(), b.t)
            if b.t in self.p.classes:
                k, kind = self.mr.method(b.t, "__getitem__")
                if k is not None:
                    return self.apply(k, [b, EMPTY], {}, e, env)
            return b.elem()
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.Lambda):
            e2 = dict(env)
            for a in e.args.args:
                e2[a.arg] = EMPTY
            return V(frozenset(), self.ev(e.body, e2).anywhere())
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            for x, y, m in ((a, b, OPS.get(type(e.op))),):
                if m and x.t in self.p.classes:
                    k, kind = self.mr.method(x.t, m)
                    if k is not None:
                        return self.apply(k, [x, y], {}, e, env)
            return V(frozenset(), V(c=a.c | b.c).c | V(a.elem().o | b.elem().o).put())
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e, None)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.ev(e.value, env) if e.value is not None else EMPTY
            w = V(frozenset(), v.put() if isinstance(e, ast.Yield) else v.elem().put())
            self.ret = w if self.ret is None else self.ret.join(w)
            return EMPTY
        if isinstance(e, (ast.UnaryOp, ast.Await)):
            self.ev(getattr(e, "operand", None) or getattr(e, "value", None), env)
            return EMPTY
        if isinstance(e, ast.Compare):
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return EMPTY
        return EMPTY

    def gname(self, n):
        c = self.f.cls
        while c is not None and False:
            c = c.outer
        r = self.p.lookup(self.mod, n)
        return self.from_res(r, n)

    def from_res(self, r, n):
        if r is None:
            return EMPTY
        if r[0] == "class":
            return V({(("K", r[1]), ())}, k=r[1])
        if r[0] == "func":
            return V({(("G", r[1] if isinstance(r[1], str) else getattr(r[1], "name", "?"), n), ())})
        if r[0] == "mod":
            return V({(("G", r[1] if isinstance(r[1], str) else r[1].name, "module"), ())})
        if r[0] == "assign":
            m = is_mutable_expr(self.p, r[1], r[2])
            if m:
                return V({(("G", r[1], n), ())}, t=m if isinstance(m, str) else None)
            if isinstance(r[2], (ast.Name, ast.Attribute)):
                rr = self.p.resolve_expr(r[1], r[2])
                if rr and rr != r:
                    return self.from_res(rr, n)
        return EMPTY

    def attribute(self, e, env):
        r = None
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in env:
            r = self.p.resolve_expr(self.mod, e)
            if r is not None:
                return self.from_res(r, e.attr)
        b = self.ev(e.value, env)
        if e.attr == "__class__":
            return V({(("K", b.t), ())} if b.t else (), k=b.t)
        if b.k in self.p.classes:
            k = self.p.find_member(self.p.classes[b.k], e.attr)
            if k and k[1][0] == "class":
                return V({(("K", k[1][1]), ())}, k=k[1][1])
            if k and k[1][0] == "assign" and is_mutable_expr(self.p, k[0].mod.name, k[1][1]):
                return V({(("C", k[0].qual, e.attr), ())})
            return V({ext(o, e.attr) for o in b.o if False})
        if b.t in self.p.classes:
            k = self.p.find_member(self.p.classes[b.t], e.attr)
            if k and k[1][0] == "prop":
                f = self.mr.fn(k[1][1])
                if f is not None:
                    return self.apply(f, [b], {}, e, env)
            if k and k[1][0] in ("func", "clsm", "static"):
                return V(c=b.anywhere())
            if k and k[1][0] == "class":
                return V({(("K", k[1][1]), ())}, k=k[1][1])
            b2 = b.elem(e.attr)
            o = set(b2.o)
            cm = self.mr.class_mutable(b.t, e.attr)
            if cm:
                o.add((cm, ()))
            return V(o, b2.c, self.mr.ftype(b.t, e.attr))
        return b.elem(e.attr)

    # ------------------------------------------------------------------ calls
    def call(self, e, env):
        f = e.func
        args = []
        for a in e.args:
            v = self.ev(a, env)
            args.append(v.elem() if isinstance(a, ast.Starred) else v)
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw["**"] = v.elem()
            else:
                kw[k.arg] = v
        allv = args + list(kw.values())
        self.f.calls += 1
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.f.cls:
            me = env.get(self.f.params[0]) if self.f.params else EMPTY
            if f.attr in ("__setattr__", "__delattr__"):
                n = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else None
                self.modify(me, n, e, f.attr)
                if len(args) > 1:
                    self.store(me, n, args[1], e)
                    self.grow(ast.Name(id=self.f.params[0], ctx=ast.Load()), args[1].put(n or "*"), env)
                return EMPTY
            for c in self.p.mro(self.f.cls)[1:]:
                if f.attr in c.members and c.members[f.attr][0] in ("func", "clsm", "static"):
                    k = self.mr.fn(c.members[f.attr][1])
                    if k is not None:
                        return self.apply(k, ([] if c.members[f.attr][0] == "static" else [me]) + args, kw, e, env)
            return EMPTY
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.p.lookup(self.mod, f.id)
            if r is None or r[0] == "ext":
                return self.builtin(f.id if r is None else r[1].split(".")[-1], e, args, kw, env)
            return self.resolved(r, e, args, kw, env)
        if isinstance(f, ast.Attribute):
            x = f
            while isinstance(x, ast.Attribute):
                x = x.value
            if isinstance(x, ast.Name) and x.id not in env:
                r = self.p.resolve_expr(self.mod, f)
                if r is not None:
                    if r[0] == "ext":
                        return self.builtin(r[1].split(".")[-1], e, args, kw, env, full=r[1])
                    return self.resolved(r, e, args, kw, env)
            b = self.ev(f.value, env)
            # Class.method(...)
            if b.k in self.p.classes:
                k = self.p.find_member(self.p.classes[b.k], f.attr)
                if k:
                    kind, node = k[1]
                    if kind == "class":
                        return self.construct(node, args, kw, e, env)
                    fn = self.mr.fn(node) if kind in ("func", "static", "clsm", "prop") else None
                    if fn is not None:
                        return self.apply(fn, ([b] if kind == "clsm" else []) + args, kw, e, env, star=star)
                if f.attr == "__setattr__" and args:
                    self.modify(args[0], None, e, "__setattr__")
                return EMPTY
            return self.methcall(b, f, e, args, kw, env, star)
        v = self.ev(f, env)
        if v.k in self.p.classes:
            return self.construct(v.k, args, kw, e, env)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "type" and f.args:
            t = self.ev(f.args[0], env).t
            if t in self.p.classes:
                return self.construct(t, args, kw, e, env)
        if v.t in self.p.classes:
            k, kind = self.mr.method(v.t, "__call__")
            if k is not None:
                return self.apply(k, [v] + args, kw, e, env)
        return V(v.all, v.anywhere())

    def methcall(self, b, f, e, args, kw, env, star=False):
        m = f.attr
        if m == "__class__":
            return self.construct(b.t, args, kw, e, env) if b.t in self.p.classes else EMPTY
        if b.t in self.p.classes:
            k = self.p.find_member(self.p.classes[b.t], m)
            if k:
                kind, node = k[1]
                if kind == "class":
                    return self.construct(node, args, kw, e, env)
                fn = self.mr.fn(node) if kind in ("func", "clsm", "static") else None
                if fn is not None:
                    a0 = [] if kind == "static" else [V({(("K", b.t), ())}, k=b.t)] if kind == "clsm" else [b]
                    return self.apply(fn, a0 + args, kw, e, env, star=star)
                if kind == "assign":
                    rr = self.alias_member(k)
                    if rr is not None:
                        return self.apply(rr, [b] + args, kw, e, env, star=star)
        elif m in self.mr.byname and m not in MUTATORS and m not in ELEMENTS and m not in ("copy", "keys"):
            cands = [x for x in self.mr.byname[m] if x.kind == "func"]
            if cands and len(cands) <= 4:
                v = None
                for k in cands:
                    w = self.apply(k, [b] + args, kw, e, env, star=star)
                    v = w if v is None else v.join(w)
                return V(v.o, v.c, v.t if len(cands) == 1 else None)
        if m in MUTATORS:
            self.modify(b, None, e, m)
            for a in args + list(kw.values()):
                w = a if m not in ("extend", "update") else a.elem()
                self.store(b, "[]", w, e)
                self.grow(f.value, w.put(), env)
            return b.elem()
        ip = [k for k in e.keywords if k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True]
        if ip:
            self.modify(b, None, e, m + "(inplace)")
        if m in ("copy",):
            return V(frozenset(), b.elem().put(), b.t)
        if m in ELEMENTS:
            r = b.elem()
            for a in args:
                r = r.join(V(a.o, a.c)) if m in ("get", "setdefault", "pop") else r
            return V(frozenset(), V(c=r.put()).put()) if m == "items" else V(frozenset(), r.put()) if m == "values" else r
        return EMPTY

    def alias_member(self, k):
        owner, (kind, nd) = k
        if isinstance(nd, ast.Name):
            kk = self.p.find_member(owner, nd.id)
            if kk and kk[1][0] == "func":
                return self.mr.fn(kk[1][1])
        return None

    def resolved(self, r, e, args, kw, env):
        if r[0] == "class":
            return self.construct(r[1], args, kw, e, env)
        if r[0] == "func":
            k = self.mr.fn(r[2])
            if k is not None:
                return self.apply(k, args, kw, e, env)
        if r[0] == "assign" and isinstance(r[2], (ast.Name, ast.Attribute)):
            rr = self.p.resolve_expr(r[1], r[2])
            if rr and rr != r:
                return self.resolved(rr, e, args, kw, env)
        return EMPTY

    def builtin(self, n, e, args, kw, env, full=""):
        if n == "setattr" and args:
            self.modify(args[0], e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None, e, "setattr")
            if len(args) > 2:
                self.store(args[0], None, args[2], e)
            return EMPTY
        if n == "delattr" and args:
            self.modify(args[0], None, e, "delattr")
            return EMPTY
        if n == "__setattr__" and args:
            self.modify(args[0], e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None, e, "__setattr__")
            if len(args) > 2:
                self.store(args[0], None, args[2], e)
                self.grow(e.args[0], args[2].put(e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"), env)
            return EMPTY
        if n in ("shuffle", "heapify", "heappush", "heappop", "heapreplace", "heappushpop", "insort", "insort_left", "insort_right") and args:
            self.modify(args[0], None, e, n)
            return args[0].elem()
        if n == "getattr" and args:
            a = args[0].elem("*")
            return V(a.o, a.c)
        if n == "vars" and args:
            return args[0]
        if n == "next" and args:
            self.modify(args[0], None, e, "next")
        if n in ("max", "min", "next", "reduce") and args:
            v = EMPTY
            for a in args:
                v = v.join(a if len(args) > 1 and n != "next" else a.elem())
            return V(v.o, v.c)
        if n in SHELL:
            c = frozenset()
            if n in ("zip", "enumerate", "product"):
                for a in args:
                    c |= V(c=a.elem().put()).put()
            elif n == "chain":
                for a in args:
                    c |= a.elem().put()
            elif n in ("permutations", "combinations"):
                c |= V(c=args[0].elem().put()).put() if args else frozenset()
            elif n in ("map", "filter"):
                for a in args[1:]:
                    c |= a.elem().put()
                if n == "map" and args and isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Lambda):
                    # the elements are the results of the lambda on the elements
                    e2 = dict(env)
                    for q, a in zip(e.args[0].args.args, args[1:]):
                        e2[q.arg] = a.elem()
                    c = self.ev(e.args[0].body, e2).put()
                elif n == "map" and args:
                    c |= V(args[0].all).put()
            elif n == "copy" and args and args[0].t in self.p.classes:
                c |= args[0].c | frozenset((r, q + (st,), (st,)) for r, q in args[0].o for st in self.attrs(args[0].t) if len(q) < MAXPATH)
            else:
                for a in args[:1]:
                    c |= a.elem().put()
                if n in ("dict",):
                    for a in kw.values():
                        c |= a.put()
            return V(frozenset(), c, args[0].t if n == "copy" and args else None)
        if n == "deepcopy":
            return V(t=args[0].t if args else None)
        if n == "cast" and len(args) > 1:
            return args[1]
        return EMPTY

    def construct(self, qual, args, kw, e, env):
        c = self.p.classes[qual]
        k = self.p.find_member(c, "__init__")
        fresh = V(t=qual)
        if k and k[1][0] == "func" and self.mr.fn(k[1][1]) is not None:
            fn = self.mr.fn(k[1][1])
            return V(frozenset(), self.captured(fn, [fresh] + args, kw, e, env), qual)
        flds = self.p.dc_fields(c)
        cont = frozenset()
        names = [x[0] for x in flds]
        for i, a in enumerate(args):
            cont |= a.put(names[i]) if i < len(names) else a.anywhere()
        for n, a in kw.items():
            cont |= a.put(n) if n in names else a.anywhere()
        given = set(kw) | set(names[:len(args)])
        for n, ann, d, owner, iv in flds:
            if n not in given and d is not None and is_mutable_expr(self.p, owner.mod.name, d):
                cont |= {(("C", owner.qual, n), (), (n,))}
        pi = self.p.find_member(c, "__post_init__")
        if pi and pi[1][0] == "func" and self.mr.fn(pi[1][1]) is not None:
            cont |= self.captured(self.mr.fn(pi[1][1]), [V(frozenset(), cont, qual)], {}, e, env)
        return V(frozenset(), cont, qual)

    def captured(self, fn, args, kw, e, env):
        """call a constructor; what the new object holds afterwards"""
        b = self.bind(fn, args, kw)
        self.apply(fn, args, kw, e, env)
        out = set(b.get(0, EMPTY).c)
        for (tgt, attr, val), ln in fn.stores.items():
            if tgt[0] == ("P", 0):
                steps = tgt[1] + astep(attr)
                out |= {x + (cut(steps),) for x in self.mapo(val, b)}
        return frozenset(out)

    def bind(self, fn, args, kw, star=False):
        b = {}
        pos = list(fn.pos)
        for i, a in enumerate(args):
            if i < len(pos):
                b[fn.params.index(pos[i])] = a
            elif fn.vararg:
                j = fn.params.index(fn.vararg)
                b[j] = b.get(j, EMPTY).join(V(frozenset(), a.put()))
        for k, v in kw.items():
            if k in fn.params and k != fn.kwarg:
                b[fn.params.index(k)] = v
            elif fn.kwarg:
                j = fn.params.index(fn.kwarg)
                b[j] = b.get(j, EMPTY).join(V(frozenset(), v.put()))
            elif k == "**":
                for i, n in enumerate(fn.params):
                    if i not in b and i >= len(args):
                        b[i] = v
        return b

    def mapv(self, o, b):
        """value in the caller of an origin of the callee"""
        root, path = o
        if root[0] != "P":
            return V({o})
        a = b.get(root[1])
        if a is None:
            return EMPTY
        for st in path:
            a = a.elem(st)
        return a

    def mapo(self, o, b):
        return self.mapv(o, b).o

    def apply(self, fn, args, kw, e, env, star=False):
        b = self.bind(fn, args, kw, star)
        ln = getattr(e, "lineno", 0)
        for (o, attr), (_, how) in list(fn.mods.items()):
            if o[0][0] == "D":
                continue
            if any(self.off(fn, fl, args, kw, e) for fl in fn.when.get((o, attr), ())):
                continue
            more = self.passed(fn, fn.when.get((o, attr), ()), args, kw, e)
            self.conds.extend(more)
            for x in self.mapo(o, b):
                self.rec((x, attr), ln, (how if how.startswith("^") else ("^" if o[0][0] != "P" else "") + f"{fn.qual}: {how}" if ":" not in how else ("^" if o[0][0] != "P" else "") + how))
            del self.conds[len(self.conds) - len(more):]
        recv = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
        for (tgt, attr, val), _ in list(fn.stores.items()):
            ts, vs = self.mapo(tgt, b), self.mapo(val, b)
            for t in ts:
                for v in vs:
                    if t != v:
                        self.f.stores.setdefault((t, attr, v), ln)
            if tgt[0][0] == "P" and vs and recv is not None and tgt[0][1] == 0:
                self.grow(recv, {x + (cut(tgt[1] + astep(attr)),) for x in vs}, env)
        ro, rc = set(), set()
        for o in fn.ret.o:
            w = self.mapv(o, b)
            ro |= w.o
            rc |= w.c
        for r, q, t in fn.ret.c:
            w = self.mapv((r, q), b)
            rc |= {x + (t,) for x in w.o}
            rc |= {x[:2] + (t if t[-1] == "*" else cut(t + x[2]),) for x in w.c}
        t = fn.ret.t
        if t is None and args and any(o == (("P", 0), ()) for o in fn.ret.o):
            t = args[0].t
        return V(ro, rc, t, fn.ret.k)

    def attrs(self, qual):
        out = {x[0] for x in self.p.dc_fields(self.p.classes[qual])}
        for k in self.p.mro(self.p.classes[qual]):
            f = k.members.get("__init__")
            if f and f[0] == "func":
                for n in ast.walk(f[1]):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
        return out


def astep(attr):
    return tuple(attr.split("/")) if attr else ("[]",)


OPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Mod: "__mod__", ast.Pow: "__pow__", ast.FloorDiv: "__floordiv__"}
