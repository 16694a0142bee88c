"""
Gated value-flow interpreter over the Python syntax tree.

One forward pass per entry point computes, for every variable and heap field, a value
number (terms.py) whose gates (`ite`) record under which branch condition which definition
reaches; both arms of a branch are analysed and merged, loops are analysed once with
loop-carried values abstracted, calls to functions of the project are inlined, everything
else stays an uninterpreted term.  Writes, deletions, raises and opaque calls are recorded
as ordered, guarded effects.  No code of the project is executed.
"""
import ast
import math
import builtins as _b
from .terms import *
from .project import Project, deco_name
from .frame import is_table

import sys
sys.setrecursionlimit(20000)

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update",
            "setdefault", "popitem", "add", "discard", "__setitem__", "__delitem__", "write"}
DELETED = sym("<deleted>")


class Dead(Exception):
    """current path cannot continue (raise / unreachable)"""
    last = ""       # the most recent raise: what and where


class Budget(Exception):
    pass


def small(t, n):
    todo = [t]
    while todo and n > 0:
        x = todo.pop()
        n -= 1
        todo += [y for y in x.args if isinstance(y, T)]
    return n > 0


class State:
    __slots__ = ("env", "heap", "guard", "facts", "loops")

    def __init__(self, env=None, heap=None, guard=(), facts=frozenset(), loops=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.guard = guard
        self.facts = facts
        self.loops = loops

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guard, self.facts, self.loops)

    def push(self, c):
        if c is TRUE:
            return
        self.guard = self.guard + (c,)
        self.facts = self.facts | frozenset(literals(c))

    def take(self, o):
        self.env, self.heap, self.guard, self.facts, self.loops = o.env, o.heap, o.guard, o.facts, o.loops

    def gterm(self):
        return AND(*self.guard)


class Effect:
    __slots__ = ("kind", "base", "key", "value", "guard", "loops", "fn", "line", "file", "seq", "caught",
                 "fresh", "stack", "handler", "old")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return f"{self.kind} {show(self.base) if self.base else ''} [{self.key}] := {show(self.value) if self.value is not None else ''}  IF {show(self.guard)} FOR {[show(l) for l in self.loops]} @{self.fn}:{self.line}"

    @property
    def where(self):
        return f"{self.file}:{self.line} in {self.fn}"


class Func:
    def __init__(self, node, mod, cls, closure, name, kind="func"):
        self.node, self.mod, self.cls, self.closure, self.name, self.kind = node, mod, cls, closure, name, kind

    @property
    def qual(self):
        return (self.cls.qual if self.cls else self.mod) + "." + self.name


def uniq(segs):
    """elements of a set: one that certainly is in it already is not added again"""
    out, have = [], set()
    for x in segs:
        if x.op == "seg" and x.args[0] in have:
            continue
        if x.op == "seg" and x.args[1] is TRUE and not x.args[2].args:
            have.add(x.args[0])
        out.append(x)
    return out


class Frame:
    def __init__(self, func):
        self.func = func
        self.returns = []       # (State, value)
        self.raised = False
        self.loopstack = []
        self.globals_ = set()
        self.yields = None
        self.cell = None


class LoopCtl:
    def __init__(self):
        self.breaks, self.continues = [], []


class Config:
    def __init__(self, opaque=(), types=None, maxdepth=24, budget=400000, ident_methods=(), nonneg=(), overrides=None,
                 opaque_mods=(), pure_mcalls=True, explicit_raises=False):
        self.explicit_raises = explicit_raises   # handlers are entered only from explicit raise / assert statements
        self.opaque = set(opaque)          # 'Class.method' or 'func' not to inline
        self.types = types or {}           # 'Class.field' -> type
        self.maxdepth = maxdepth
        self.budget = budget
        self.ident_methods = set(ident_methods)
        self.overrides = overrides or {}
        self.opaque_mods = tuple(opaque_mods)


_FUNCS = {}
_FUNCID = [0]
_RETSUB = [0]


class Interp:
    def __init__(self, project, config=None):
        self.p = project
        self.cfg = config or Config()
        self.types = {}
        self.effects = []
        self.nobj = 0
        self.nseq = 0
        self.ntry = 0
        self.steps = 0
        self.stack = []          # Frames
        self.excvals, self.namedmut = {}, {}
        self.oracle, self.decided = None, {}
        self.gens = set()        # list objects standing for iterators
        self.trystack = []       # list of (handlers' class names or None, frame depth)
        self.dry = 0
        self.visited = set()     # function quals analysed
        self.callsites = 0
        self.limits = []         # imprecision notes
        self.classval = {}
        self.modcache = {}
        self.objclass = {}

    # ================================================================ types
    def ann_type(self, ann, mod, cls=None):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BoolOp):
            ann = ann.values[0]
        if isinstance(ann, ast.Subscript):
            h = ann.value
            hn = h.id if isinstance(h, ast.Name) else h.attr if isinstance(h, ast.Attribute) else ""
            sl = ann.slice
            el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if hn in ("List", "list", "Iterable", "Sequence", "Iterator"):
                return ("list", self.ann_type(el[0], mod, cls))
            if hn in ("Set", "set", "FrozenSet"):
                return ("set", self.ann_type(el[0], mod, cls))
            if hn in ("Dict", "dict") and len(el) == 2:
                return ("dict", self.ann_type(el[0], mod, cls), self.ann_type(el[1], mod, cls))
            if hn in ("Tuple", "tuple"):
                return ("tuple", tuple(self.ann_type(e, mod, cls) for e in el))
            if hn in ("Optional",):
                return self.ann_type(el[0], mod, cls)
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(mod, ann)
            if r and r[0] == "class":
                return ("cls", r[1])
            if isinstance(ann, ast.Name):
                if ann.id in ("list", "dict", "set", "tuple", "str", "int", "float", "bool"):
                    return (ann.id,) if ann.id in ("str", "int", "float", "bool") else (ann.id, None, None)
                c = cls
                while c is not None:
                    k = self.p.find_member(c, ann.id)
                    if k and k[1][0] == "class":
                        return ("cls", k[1][1])
                    c = c.outer
        return None

    def settype(self, t, ty):
        self.types[t] = ty

    def cls_of(self, t):
        ty = self.typeof(t)
        if ty and ty[0] == "cls":
            return self.p.classes.get(ty[1])
        return None

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        ty = self._typeof(t)
        if ty is not None:
            self.types[t] = ty
        return ty

    def _typeof(self, t):
        o = t.op
        if o == "obj":
            if t.args[0] in ("list", "set", "dict"):
                return (t.args[0], None, None)
            return ("cls", t.args[0])
        if o == "attr":
            c = self.cls_of(t.args[0])
            if c is None:
                return None
            for k in self.p.mro(c):
                ty = self.cfg.types.get(f"{k.name}.{t.args[1]}")
                if ty is not None:
                    return ty
            for f in self.p.dc_fields(c):
                if f[0] == t.args[1]:
                    return self.ann_type(f[1], f[3].mod.name, f[3])
            return None
        if o == "item":
            ty = self.typeof(t.args[0])
            if ty:
                if ty[0] == "list":
                    return ty[1]
                if ty[0] == "dict":
                    return ty[2] if len(ty) > 2 else None
                if ty[0] == "tuple" and len(ty) > 1 and ty[1] and t.args[1].op == "const" and isinstance(cval(t.args[1]), int):
                    try:
                        return ty[1][cval(t.args[1])]
                    except IndexError:
                        return None
            if t.args[0].op == "list":
                s = comp_seg(t.args[0])
                if s is not None:
                    return self.typeof(s.args[0])
                ts = [self.typeof(x.args[0]) for x in t.args[0].args if x.op == "seg"]
                if ts and all(x == ts[0] for x in ts):
                    return ts[0]
            if t.args[0].op == "dict":
                ts = [self.typeof(x.args[1]) for x in t.args[0].args if x.op == "kv"]
                if ts and all(x == ts[0] for x in ts):
                    return ts[0]
            return None
        if o == "elem":
            a = t.args[0]
            ty = self.typeof(a)
            if ty and ty[0] in ("list", "set", "dict"):
                return ty[1]
            if a.op in ("list", "set"):
                ts = [self.typeof(x.args[0]) for x in a.args if x.op == "seg"]
                if ts and all(x == ts[0] for x in ts):
                    return ts[0]
            if a.op in ("sorted", "reversed", "listcat") :
                return self.typeof(mk("elem", a.args[0]))
            return None
        if o in ("sorted", "reversed"):
            return self.typeof(t.args[0])
        if o == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a == b:
                return a
            if t.args[1] is NONE:
                return b
            if t.args[2] is NONE:
                return a
            return None
        if o == "loopvar" or o == "after":
            return self.typeof(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], T) else None
        if o == "const":
            return (t.args[0],)
        if o in ("fstr", "str", "join"):
            return ("str",)
        return None

    # ================================================================ objects
    def new_obj(self, clsname):
        self.nobj += 1
        return mk("obj", clsname, self.nobj)

    def symobj(self, name, qual):
        t = sym(name)
        self.settype(t, ("cls", self.qual(qual)))
        return t

    def qual(self, q):
        if q in self.p.classes:
            return q
        r = self.p.by_name(q)
        if len(r) >= 1:
            return r[0].qual
        raise KeyError(f"class {q} not found")

    def cls(self, q):
        return self.p.classes[self.qual(q)]

    def state(self, facts=()):
        st = State()
        for f in facts:
            st.push(f)
        st.facts = frozenset(st.facts)
        st.guard = ()
        return st

    # ================================================================ effects
    def effect(self, kind, base, key, value, st, node, **kw):
        self.nseq += 1
        fr = self.stack[-1] if self.stack else None
        fn = fr.func.qual if fr and fr.func else "<entry>"
        path = ""
        if fr and fr.func and fr.func.mod in self.p.mods:
            path = self.p.rel(self.p.mods[fr.func.mod].path)
        e = Effect(kind=kind, base=base, key=key, value=value, guard=st.gterm(), loops=st.loops, fn=fn,
                   line=getattr(node, "lineno", 0), file=path, seq=self.nseq,
                   caught=kw.pop("caught", False), fresh=base is not None and base.op == "obj",
                   stack=tuple(f.func.qual if f.func else "?" for f in self.stack), **kw)
        self.effects.append(e)
        return e

    # ================================================================ freeze
    def freeze(self, v, st, depth=8, seen=()):
        """replace references to fresh objects by their current contents"""
        if depth <= 0:
            return v
        if v.op == "obj":
            if v in seen:
                return v
            c = st.heap.get((v, "c"))
            if c is not None:
                return self.freeze(c, st, depth, seen + (v,))
            ks = sorted([k for k in st.heap if k[0] is v and k[1] == "f"], key=lambda k: k[2])
            if ks or v.args[0] in self.p.classes:
                return mk("new", v.args[0], *[mk("kw", k[2], self.freeze(st.heap[k], st, depth - 1, seen + (v,))) for k in ks])
            return v
        if not v.args or v.op in ("const", "sym", "func", "cls", "ext", "opaque"):
            return v
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op == "obj":
                r = self.freeze(t, st, depth - 1, seen)
            elif t.op in ("func", "cls"):
                r = t
            else:
                args, ch = [], False
                for a in t.args:
                    if isinstance(a, T):
                        b = go(a)
                        ch = ch or b is not a
                        args.append(b)
                    else:
                        args.append(a)
                r = rebuild(t.op, args) if ch else t
            memo[t] = r
            return r
        return go(v)

    def content(self, v, st):
        """content of a container value (list/set/dict term) or None"""
        if v.op == "obj":
            return st.heap.get((v, "c"))
        if v.op in ("list", "set", "dict"):
            return v
        if v.op in ("tuple", "vec"):
            return mk("list", *[mk("seg", a, TRUE, mk("loops")) for a in v.args])
        return None

    # ================================================================ merge
    def merge_val(self, c, a, b, st_a, st_b):
        if a is b:
            return a
        return ITE(c, a, b)

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if a.op == b.op and a.op in ("list", "set", "dict"):
            i = 0
            while i < len(a.args) and i < len(b.args) and a.args[i] is b.args[i]:
                i += 1
            out = list(a.args[:i])
            out += [self._guard_seg(x, c) for x in a.args[i:]]
            out += [self._guard_seg(x, NOT(c)) for x in b.args[i:]]
            return mk(a.op, *out)
        return ITE(c, a, b)

    def _guard_seg(self, s, c):
        if s.op == "seg":
            return mk("seg", s.args[0], AND(c, s.args[1]), s.args[2])
        if s.op == "kv":
            return mk("kv", s.args[0], s.args[1], AND(c, s.args[2]), s.args[3])
        return mk("gpre", c, s)

    def heap_default(self, key):
        if key[1] == "f":
            return None if key[0].op == "obj" else ATTR(key[0], key[2])
        if key[1] == "i":
            return None if key[0].op == "obj" else ITEM(key[0], key[2])
        return None

    def merge(self, c, a, b, guard, facts, loops):
        """state holding a's values if c else b's"""
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                env[k] = x if x is not None else y
            else:
                env[k] = x if x is y else ITE(c, x, y)
        heap = {}
        if a.heap is b.heap:
            heap = a.heap
        else:
            for k in a.heap.keys() | b.heap.keys():
                x, y = a.heap.get(k), b.heap.get(k)
                if x is y:
                    heap[k] = x
                    continue
                if x is None:
                    x = self.heap_default(k)
                if y is None:
                    y = self.heap_default(k)
                if x is None or y is None:
                    heap[k] = x if x is not None else y
                elif k[1] == "c":
                    heap[k] = self.merge_content(c, x, y)
                else:
                    heap[k] = ITE(c, x, y)
        return State(env, heap, guard, facts, loops)

    def join_after(self, st, n0, c, a, b):
        """merge branch states a (under c) and b (under not c); either may be None.
        st is updated in place; n0 = guard length before the branch"""
        g0, f0, l0 = st.guard[:n0], st.facts, st.loops
        if a is None and b is None:
            raise Dead()
        if a is None:
            st.take(b)
            return
        if b is None:
            st.take(a)
            return
        m = self.merge(c, a, b, g0, f0, l0)
        # residual guards acquired inside arms (raises): keep them as implications
        ra = AND(*a.guard[n0 + (0 if c is TRUE else 1):]) if len(a.guard) > n0 else TRUE
        rb = AND(*b.guard[n0 + (0 if c is TRUE else 1):]) if len(b.guard) > n0 else TRUE
        st.take(m)
        if ra is not TRUE or rb is not TRUE:
            st.push(ITE(c, ra, rb) if is_bool(ra) and is_bool(rb) else TRUE)

    def csimp(self, c, facts):
        """simplify a condition by the known literals and, where a sign domain is supplied, by the signs of its operands"""
        c = simp(c, facts)
        if self.oracle is None or c.op == "const":
            return c
        if c.op in ("and", "or"):
            return (AND if c.op == "and" else OR)(*[self.csimp(x, facts) for x in c.args])
        r = self.decided.get(c)
        if r is None:
            r = self.decided[c] = self.oracle(c) if small(c, 150) else c
        return r

    def branch(self, c, st, fa, fb):
        """run fa under c and fb under not c (both take a State), merge into st;
        returns merged value of the two callables (or None)"""
        c = self.csimp(c, st.facts)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        n0 = len(st.guard)
        a, b = st.copy(), st.copy()
        a.push(c)
        b.push(NOT(c))
        va = vb = None
        try:
            va = fa(a)
        except Dead:
            a = None
        try:
            vb = fb(b)
        except Dead:
            b = None
        f0 = st.facts
        self.join_after(st, n0, c, a, b)
        if a is None:
            return vb
        if b is None:
            return va
        if va is None or vb is None:
            return va if va is not None else vb
        return va if va is vb else ITE(c, va, vb)

    # ================================================================ functions
    def mkfunc(self, node, mod, cls, closure, name, kind="func"):
        key = (id(node), id(closure) if closure is not None else 0, cls.qual if cls else "")
        t = _FUNCS.get(key)
        if t is None:
            _FUNCID[0] += 1
            t = mk("func", _FUNCID[0], name)
            _FUNCS[key] = t
            _FUNCS[t] = Func(node, mod, cls, closure, name, kind)
        return t

    def func(self, t):
        return _FUNCS[t]

    def bind_args(self, f, args, kwargs, st, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[k.arg] = d
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
            elif n in kwargs:
                env[n] = kwargs.pop(n)
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *args[len(pos):])
        elif len(args) > len(pos):
            if any(x.op == "star" for x in args):
                pass
            else:
                self.effect("badcall", None, f.qual, const(f"too many positional arguments for {f.qual}"), st, node)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
        if a.kwarg:
            o = self.new_obj("dict")
            st.heap[(o, "c")] = mk("dict", *[mk("kv", const(k), v, TRUE, mk("loops")) for k, v in kwargs.items()])
            env[a.kwarg.arg] = o
            if star is not None:
                st.heap[(o, "c")] = mk("dict", *(st.heap[(o, "c")].args + (mk("kvstar", star),)))
        elif kwargs:
            self.effect("badcall", None, f.qual, const(f"unexpected keyword argument(s) {sorted(kwargs)} for {f.qual}"), st, node)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n in defaults:
                    env[n] = self.eval_in(defaults[n], f.mod, f.cls, st)
                    if star is not None:
                        env[n] = self.perhaps(star, n, env[n], st)
                elif star is not None:
                    env[n] = ITEM(self.freeze(star, st), const(n))
                else:
                    if not any(x.op == "star" for x in args):
                        self.effect("badcall", None, f.qual, const(f"missing argument {n} for {f.qual}"), st, node)
                    env[n] = fresh_opaque("missing:" + n)
        # annotations give types to untyped symbols
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v is not None and x.annotation is not None and self.typeof(v) is None and v.op in ("sym", "attr", "item", "elem"):
                ty = self.ann_type(x.annotation, f.mod, f.cls)
                if ty:
                    self.settype(v, ty)
        return env

    def perhaps(self, star, n, default, st):
        """the value of a parameter when the call passes an unknown mapping: its entry, if it has one"""
        c = self.content(star, st)
        if c is not None and c.op == "dict" and c.args == ():
            return default
        fz = self.freeze(star, st)
        if c is not None and c.op == "dict" and all(x.op == "kv" and x.args[0].op == "const" for x in c.args) and not any(cval(x.args[0]) == n for x in c.args):
            return default
        return ITE(mk("in", const(n), fz), ITEM(fz, const(n)), default)

    def eval_in(self, node, mod, cls, st):
        """evaluate an expression in module/class scope"""
        fr = Frame(Func(None, mod, cls, None, "<scope>"))
        self.stack.append(fr)
        sub = State({}, st.heap, st.guard, st.facts, st.loops)
        try:
            return self.ev(node, sub)
        except Dead:
            return fresh_opaque("dead")
        finally:
            self.stack.pop()

    def is_opaque_fn(self, f):
        q = f.qual
        short = (f.cls.name + "." if f.cls else "") + f.name
        if short in self.cfg.opaque or q in self.cfg.opaque or f.name in self.cfg.opaque:
            return True
        return any(f.mod == m or f.mod.startswith(m + ".") for m in self.cfg.opaque_mods)

    def call_func(self, ft, args, kwargs, st, node):
        f = self.func(ft)
        ov = self.cfg.overrides.get((f.cls.name + "." if f.cls else "") + f.name)
        if ov is not None:
            r = ov(self, f, args, kwargs, st, node)
            if r is not None:
                return r
        depth = sum(1 for x in self.stack if x.func and x.func.node is f.node and f.node is not None)
        if self.is_opaque_fn(f) or depth >= (5 if self.cfg.explicit_raises else 2) or len(self.stack) > self.cfg.maxdepth or \
                (depth >= 1 and isinstance(f.node, ast.FunctionDef) and not self._rec_ok(f)):
            return self.opaque_call(f, args, kwargs, st, node, rec=depth >= 1)
        self.callsites += 1
        self.visited.add(f.qual)
        env = self.bind_args(f, args, kwargs, st, node)
        return self.run_body(f, env, st)

    def _rec_ok(self, f):
        return True

    def opaque_call(self, f, args, kwargs, st, node, rec=False):
        # bind to parameter names so that positional/keyword spelling does not matter
        try:
            n0 = len(self.effects)
            env = self.bind_args(f, args, kwargs, st, node)
        except Dead:
            raise
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        t = mk("call", f.qual, *[mk("kw", n, self.freeze(env[n], st)) for n in names if n in env])
        ty = self.ann_type(getattr(f.node, "returns", None), f.mod, f.cls)
        if ty and t not in self.types:
            self.settype(t, ty)
        self.effect("opaque_call", t, f.qual, t, st, node)
        return t

    def run_body(self, f, env, st):
        fr = Frame(f)
        self.stack.append(fr)
        n0 = len(st.guard)
        sub = State(env, st.heap, st.guard, st.facts, st.loops)
        fr.cell = env
        sub.env = dict(env)
        if f.closure is not None:
            sub.env = {**f.closure, **sub.env}
        entry_heap = dict(st.heap)
        rets = fr.returns
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, sub)
                rets.append((sub, v))
            else:
                if self._is_gen(f.node):
                    fr.yields = self.new_obj("list")
                    sub.heap[(fr.yields, "c")] = mk("list")
                alive = True
                sub.heap = dict(sub.heap)
                try:
                    self.block(f.node.body, sub)
                except Dead:
                    alive = False
                if alive:
                    rets.append((sub, NONE))
        finally:
            self.stack.pop()
        if not rets:
            raise Dead()
        # merge
        val = None
        cur = None
        covers = []
        for s, v in rets:
            covers.append(AND(*s.guard[n0:]))
        if fr.yields is not None:
            rets = [(s, fr.yields) for s, _ in rets]
        s, val = rets[-1]
        cur = s
        for i in range(len(rets) - 2, -1, -1):
            si, vi = rets[i]
            c = covers[i]
            # the later alternatives are only reached when c is false
            val2 = restrict(val, frozenset(literals(NOT(c)))) if val.size < 4000 else val
            vi2 = restrict(vi, frozenset(literals(c))) if vi.size < 4000 else vi
            val = vi2 if vi2 is val2 else ITE(c, vi2, val2)
            cur = self.merge(c, si, cur, (), st.facts, st.loops)
        st.heap = cur.heap
        cov = OR(*covers)
        if cov is not TRUE and cov is not FALSE:
            cov = self.csimp(cov, st.facts)
            st.push(cov)
        return val if val is not None else NONE

    def _is_gen(self, node):
        g = getattr(node, "_vf_gen", None)
        if g is None:
            g = False
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            node._vf_gen = g
        return g

    # ================================================================ calls API
    def call_method(self, obj, name, args=(), kwargs=None, st=None):
        m = self.getattr(obj, name, st, None)
        return self.apply(m, list(args), dict(kwargs or {}), st, None)

    def construct(self, qual, args, kwargs, st, node):
        c = self.p.classes[qual]
        eb = self.p.ext_bases(c)
        k = self.p.find_member(c, "__init__")
        if "dict" in eb and k and k[1][0] == "func" and self.attrdict(k[1][1]):
            return self.call_ext("dict", list(args), dict(kwargs), st, node)
        obj = self.new_obj(qual)
        if k and k[1][0] == "func":
            f = self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__init__")
            self.call_func(f, [obj] + list(args), kwargs, st, node)
            return obj
        flds = self.p.dc_fields(c)
        if flds or c.dataclass:
            args = list(args)
            kwargs = dict(kwargs)
            star = kwargs.pop("**", None)
            initvars = []
            nf = 0
            for i, (n, ann, d, owner, iv) in enumerate(flds):
                noinit = False
                factory = None
                if isinstance(d, ast.Call) and deco_name(d) == "field":
                    for kw in d.keywords:
                        if kw.arg == "init" and isinstance(kw.value, ast.Constant) and kw.value.value is False:
                            noinit = True
                        if kw.arg == "default_factory":
                            factory = kw.value
                    dd = [kw.value for kw in d.keywords if kw.arg == "default"]
                    d = dd[0] if dd else None
                if not noinit and nf < len(args):
                    v = args[nf]
                    nf += 1
                elif n in kwargs and not noinit:
                    v = kwargs.pop(n)
                    nf += 1
                else:
                    nf += 0 if noinit else 1
                    if factory is not None:
                        fn = self.eval_in(factory, owner.mod.name, owner, st)
                        v = self.apply(fn, [], {}, st, node)
                    elif d is not None:
                        v = self.class_default(owner, n, d, st)
                        if star is not None and not noinit:
                            v = self.perhaps(star, n, v, st)
                    elif star is not None:
                        v = ITEM(self.freeze(star, st), const(n))
                    elif noinit:
                        continue
                    else:
                        if not any(x.op == "star" for x in args):
                            self.effect("badcall", None, qual, const(f"missing argument {n} for {qual}"), st, node)
                        v = fresh_opaque("missing:" + n)
                if iv:
                    initvars.append(v)
                else:
                    if v.op in ("sym", "attr", "item", "elem") and self.typeof(v) is None:
                        ty = self.ann_type(ann, owner.mod.name, owner)
                        if ty and ty[0] == "cls":
                            pass
                    self.setfield(obj, n, v, st, node)
            if kwargs:
                self.effect("badcall", None, qual, const(f"unexpected keyword argument(s) {sorted(kwargs)} for {qual}"), st, node)
            k = self.p.find_member(c, "__post_init__")
            if k:
                f = self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__post_init__")
                self.call_func(f, [obj] + initvars, {}, st, node)
            return obj
        for i, a in enumerate(args):
            st.heap[(obj, "f", f"<arg{i}>")] = a
        return obj

    def attrdict(self, fn):
        """a dictionary that is its own attribute table"""
        return any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == "__dict__" and
                   isinstance(x.value, ast.Name) and x.value.id == fn.args.args[0].arg for x in fn.body)

    def named_mutation(self, n):
        """is a container of this name modified or rebound anywhere in the project"""
        r = self.namedmut.get(n)
        if r is None:
            nm = lambda x: isinstance(x, ast.Name) and x.id == n or isinstance(x, ast.Attribute) and x.attr == n
            r = False
            for m in self.p.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and nm(x.value) \
                            or isinstance(x, ast.Attribute) and x.attr == n and not isinstance(x.ctx, ast.Load) \
                            or isinstance(x, ast.AugAssign) and nm(x.target) \
                            or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and nm(x.func.value) and x.func.attr not in ("get", "keys", "values", "items", "copy"):
                        r = True
            self.namedmut[n] = r
        return r

    @staticmethod
    def constant_table(d):
        """nesting depth of a dictionary literal of constants (0: not one)"""
        if not isinstance(d, ast.Dict) or not all(isinstance(k, ast.Constant) for k in d.keys):
            return 0
        sub = [0 if isinstance(v, ast.Constant) else Interp.constant_table(v) or -9 for v in d.values]
        return 1 + sub[0] if sub and sub[0] >= 0 and len(set(sub)) == 1 else 0

    @staticmethod
    def table_term(d):
        return mk("dict", *[mk("kv", const(k.value), const(v.value) if isinstance(v, ast.Constant) else Interp.table_term(v), TRUE, mk("loops")) for k, v in zip(d.keys, d.values)])

    def only_looked_up(self, n, depth):
        """is a table of this name only ever subscripted, down to its constants"""
        k = (n, depth)
        r = self.namedmut.get(k)
        if r is None:
            nm = lambda x: isinstance(x, ast.Name) and x.id == n or isinstance(x, ast.Attribute) and x.attr == n
            seen = uses = 0
            for m in self.p.mods.values():
                for x in ast.walk(m.tree):
                    if nm(x):
                        seen += 1
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and nm(x.targets[0]) and isinstance(x.targets[0], ast.Name) and self.constant_table(x.value) == depth:
                        uses += 1
                    y, i = x, 0
                    while i < depth and isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load):
                        y, i = y.value, i + 1
                    if i == depth and nm(y):
                        uses += 1
            r = self.namedmut[k] = seen == uses
        return r

    def class_default(self, owner, n, d, st):
        """default value of a class-level name, evaluated once in Python: a mutable default is shared"""
        if isinstance(d, (ast.Call, ast.List, ast.Dict, ast.Set)):
            if isinstance(d, ast.Dict) and n.isupper() and all(isinstance(x, ast.Constant) for x in d.keys + d.values) and not self.named_mutation(n):
                return mk("dict", *[mk("kv", const(k.value), const(v.value), TRUE, mk("loops")) for k, v in zip(d.keys, d.values)])
            depth = self.constant_table(d)
            if depth and self.only_looked_up(n, depth):
                return self.table_term(d)
            t = mk("attr", mk("cls", owner.qual), n)
            if t not in self.types:
                if isinstance(d, ast.Call):
                    r = self.p.resolve_expr(owner.mod.name, d.func)
                    if r and r[0] == "class":
                        self.settype(t, ("cls", r[1]))
                    elif isinstance(d.func, ast.Name) and (d.func.id == "Decimal" or d.func.id in ("str", "int", "float", "tuple", "frozenset", "abs", "min", "max", "round", "bool") and not r):
                        return self.eval_in(d, owner.mod.name, owner, st)
            return t
        return self.eval_in(d, owner.mod.name, owner, st)

    def apply(self, fn, args, kwargs, st, node):
        self.steps += 1
        o = fn.op
        if o == "func":
            return self.call_func(fn, args, kwargs, st, node)
        if o == "bound":
            return self.call_func(fn.args[0], [fn.args[1]] + list(args), kwargs, st, node)
        if o == "cls":
            return self.construct(fn.args[0], args, kwargs, st, node)
        if o == "superm":
            if fn.args[1] in ("__setattr__", "__getattribute__", "__delattr__"):
                return self.call_ext("object." + fn.args[1], [fn.args[0]] + list(args), kwargs, st, node)
            return self.call_ext("super." + fn.args[1], args, kwargs, st, node)
        if o == "ext":
            return self.call_ext(fn.args[0], args, kwargs, st, node)
        if o == "meth":
            return self.call_meth(fn.args[0], fn.args[1], args, kwargs, st, node)
        if o == "ite":
            c = fn.args[0]
            return self.branch(c, st, lambda s: self.apply(fn.args[1], args, kwargs, s, node),
                               lambda s: self.apply(fn.args[2], args, kwargs, s, node))
        c = self.cls_of(fn)
        if c is not None:
            k = self.p.find_member(c, "__call__")
            if k and k[1][0] == "func":
                f = self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__call__")
                return self.call_func(f, [fn] + list(args), kwargs, st, node)
        if o == "attr" and fn.args[1] == "sqrt" and not args and not kwargs:
            return mk("sqrt", fn.args[0])
        if o == "attr" and fn.args[0].op in ("sym", "attr", "item", "elem", "call", "opaque", "mcall", "table"):
            return self.call_meth(fn.args[1], fn.args[0], args, kwargs, st, node)
        t = mk("call", self.freeze(fn, st), *self._targs(args, kwargs, st))
        self.effect("opaque_call", fn, None, t, st, node)
        return t

    def _targs(self, args, kwargs, st):
        return [self.freeze(a, st) for a in args] + [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]

    # ---------------------------------------------------------------- external functions
    WALK1 = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "enumerate", "sum", "any", "all"}

    def call_ext(self, name, args, kwargs, st, node):
        n = name[9:] if name.startswith("builtins.") else name
        short = n.split(".")[-1]
        a = list(args)
        walked = a[:1] if n in self.WALK1 or n in ("min", "max") and len(a) == 1 else a[1:] if n in ("map", "filter") else a if n == "zip" else ()
        for v in walked:
            self.check_iterable(v, st, node)
        if self.frames is not None:
            r = self.frames.ext(n, a, kwargs, st, node)
            if r is not None:
                return r
        if self.ext_hook is not None:
            r = self.ext_hook(n, a, kwargs, st)
            if r is not None:
                return r
        if n == "super":
            return mk("super",)
        if n == "print":
            self.effect("print", None, "print", None, st, node)
            return NONE
        if n.startswith("numpy."):
            r = self.numpy(n[6:], a, kwargs, st, node)
            if r is not None:
                return r
        if n in ("math.sqrt", "numpy.sqrt", "decimal.Decimal.sqrt") and len(a) >= 1:
            return mk("sqrt", a[0])
        du = self.DUNDER1.get(n)
        if n in ("repr", "str", "format") and a and not kwargs:
            cl = self.cls_of(a[0])
            du = None if cl is None else next((d for d in {"repr": ("__repr__",), "str": ("__str__", "__repr__"), "format": ("__format__",)}[n] if self.p.find_member(cl, d)), None)
            if cl is None and n == "format" and len(a) == 2 and all(v.op == "const" and type(cval(v)) in (int, float, str) for v in a):
                try:
                    return const(format(cval(a[0]), cval(a[1])))
                except (ValueError, TypeError):
                    pass
        if du and a and not kwargs:
            cl = self.cls_of(a[0])
            k = self.p.find_member(cl, du) if cl is not None else None
            if k and k[1][0] in ("func", "assign"):
                return self.apply(self.getattr(a[0], du, st, node), list(a[1:]), {}, st, node)
        if n == "divmod" and len(a) == 2 and not kwargs and self.cls_of(a[0]) is None:
            cl = self.cls_of(a[1])
            if cl is None:
                return mk("tuple", self.binop("floordiv", a[0], a[1], st, node), self.binop("mod", a[0], a[1], st, node))
            k = self.p.find_member(cl, "__rdivmod__")
            if k and k[1][0] in ("func", "assign"):
                return self.apply(self.getattr(a[1], "__rdivmod__", st, node), [a[0]], {}, st, node)
        if n in ("float", "int", "str", "bool", "complex") and len(a) == 1 and not kwargs:
            if n == "bool":
                return self.truthy(a[0], st, node)
            if n == "str" and a[0].op == "exc_new" and len(a[0].args) == 2 and a[0].args[1].op == "const" and isinstance(cval(a[0].args[1]), str):
                return a[0].args[1]
            if n == "str":
                if a[0].op == "const":
                    return const(str(cval(a[0])))
                if self.typeof(a[0]) == ("str",):
                    return a[0]
            if a[0].op == "const" and n in ("float", "int"):
                try:
                    return const(float(cval(a[0])) if n == "float" else int(cval(a[0])))
                except Exception as x:
                    if self.cfg.explicit_raises:
                        self.raise_(st, type(x).__name__, node)
            if n == "float" and self.floatval(a[0]) or n == "int" and a[0].op != "const" and self.intval(a[0]) and self.given(a[0]):
                return a[0]
            return mk(n, a[0])
        if (n in ("int", "hex", "oct", "bin", "chr", "ord", "round") or n in ("math.floor", "math.ceil", "math.log10", "math.log2", "math.log", "math.trunc")) and a and not kwargs and all(v.op == "const" for v in a):
            try:
                return const((getattr(math, n[5:]) if n.startswith("math.") else getattr(_b, n))(*[cval(v) for v in a]))
            except Exception as x:
                if self.cfg.explicit_raises:
                    self.raise_(st, type(x).__name__, node)
        if n == "dataclasses.asdict" and len(a) == 1 and not kwargs:
            cl = self.cls_of(a[0])
            fs = cl and self.p.dc_fields(cl)
            if fs:
                o = self.new_obj("dict")
                segs = [mk("kv", const(f[0]), self.asdict_(self.getattr(a[0], f[0], st, node), st, node), TRUE, mk("loops")) for f in fs]
                st.heap[(o, "c")] = mk("dict", *segs)
                return o
        if n == "str" and not a:
            return const("")
        if n in ("float", "int") and not a:
            return const(0)
        if n in ("decimal.Decimal",) and len(a) == 1:
            return mk("Decimal", a[0])
        if n in ("abs", "math.fabs", "numpy.abs") and len(a) == 1:
            if a[0].op == "neg":
                return mk("abs", a[0].args[0])
            if a[0].op == "abs":
                return a[0]
            if a[0].op == "const" and _n_(cval(a[0])):
                return const(abs(cval(a[0])))
            return mk("abs", a[0])
        if n in ("min", "max"):
            if len(a) == 1:
                v = self.vector(a[0], st) if not kwargs else None
                if v is not None and len(v.args) == 1:
                    return v.args[0]
                if v is not None:
                    return mk(n, *sorted(v.args, key=lambda t: t.key))
                return mk(n, self.freeze(a[0], st), *self._targs([], kwargs, st))
            return mk(n, *sorted(a, key=lambda t: t.key), *self._targs([], kwargs, st))
        if n in ("round", "numpy.round") and a:
            nd = a[1] if len(a) > 1 else kwargs.get("ndigits", NONE)
            return mk("round", a[0], nd)
        if n == "pow" and len(a) == 2:
            return arith("pow", a[0], a[1])
        if n in ("math.prod", "numpy.prod") and len(a) == 1:
            return self.do_prod(a[0], st)
        if n in ("numpy.mean", "statistics.mean", "numpy.average") and len(a) == 1 and not kwargs:
            ps = self.pieces(a[0], st)
            if ps and all(g is TRUE and not ls for g, e, ls in ps):
                return arith("div", self.do_sum(a[0], const(0), st), const(len(ps)))
        if n == "sum" and a:
            return self.do_sum(a[0], a[1] if len(a) > 1 else const(0), st)
        if n == "len" and len(a) == 1:
            return self.do_len(a[0], st)
        if n == "isinstance" and len(a) == 2:
            return self.isinst(a[0], a[1], st)
        if n == "issubclass" and len(a) == 2 and a[0].op == "cls" and a[1].op == "cls":
            return const(self.p.is_subclass(self.p.classes[a[0].args[0]], self.p.classes[a[1].args[0]]))
        if n == "type" and len(a) == 1:
            c = self.cls_of(a[0])
            if c is not None:
                return mk("cls", c.qual)
            ty = self.typeof(a[0])
            if a[0].op == "const" and a[0] is not NONE or ty and ty[0] in ("str",):
                return mk("ext", "builtins." + (ty[0] if ty else a[0].args[0]))
            return mk("typeof", a[0])
        if n == "getattr" and len(a) >= 2 and a[1].op == "const":
            try:
                return self.getattr(a[0], cval(a[1]), st, node)
            except Dead:
                return a[2] if len(a) > 2 else fresh_opaque("getattr")
        if n == "setattr" and len(a) == 3 and a[1].op == "const":
            self.setattr(a[0], cval(a[1]), a[2], st, node)
            return NONE
        if n == "object.__setattr__" and len(a) == 3 and a[1].op == "const":
            self.setfield(a[0], cval(a[1]), a[2], st, node)
            return NONE
        if n == "dataclasses.fields" and len(a) == 1:
            cl = self.p.classes.get(a[0].args[0]) if a[0].op == "cls" else self.cls_of(a[0])
            if cl is not None and self.p.dc_fields(cl):
                return mk("tuple", *[mk("dcfield", cl.qual, x[0]) for x in self.p.dc_fields(cl) if not x[4]])
        if n == "vars" and len(a) == 1:
            return self.getattr(a[0], "__dict__", st, node)
        if n == "hasattr" and len(a) == 2:
            return mk("truth", mk("hasattr", a[0], a[1]))
        if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            return self.mkcontainer(n, a, kwargs, st, node)
        if n in ("set.union", "set.intersection", "set.difference", "frozenset.union", "frozenset.intersection") and a and not kwargs and not any(x.op == "star" for x in a):
            r = self.setop(n.split(".")[1], a, st)
            if r is not None:
                return r
        if n == "itertools.chain" and not kwargs and not any(x.op == "star" for x in a):
            o = self.new_obj("list")
            st.heap[(o, "c")] = mk("list", *[x for v in a for x in self.pieces_as_segs(v, st)])
            return o
        if n == "dict":
            o = self.new_obj("dict")
            segs = []
            if a:
                c = self.content(a[0], st)
                if c is not None and c.op == "dict":
                    segs += list(c.args)
                elif c is not None:
                    for s in c.args:
                        if s.op == "seg" and s.args[0].op == "tuple" and len(s.args[0].args) == 2:
                            segs.append(mk("kv", s.args[0].args[0], s.args[0].args[1], s.args[1], s.args[2]))
                        else:
                            segs.append(mk("kvstar", self.freeze(a[0], st)))
                            break
                elif a[0].op in ("zip", "enumerate", "dview", "tuple", "ite"):
                    for g, e, ls in self.pieces(a[0], st):
                        if e.op == "tuple" and len(e.args) == 2:
                            kv = mk("kv", e.args[0], e.args[1], g, mk("loops", *ls))
                            segs = self._dict_put(segs, kv) if e.args[0].op == "const" else segs + [kv]
                        else:
                            segs.append(mk("kvstar", self.freeze(a[0], st)))
                            break
                else:
                    segs.append(mk("kv", mk("elem", a[0]), ITEM(a[0], mk("elem", a[0])), TRUE, mk("loops", a[0])))
            star = kwargs.pop("**", None)
            for k, v in kwargs.items():
                segs = self._dict_put(segs, mk("kv", const(k), v, TRUE, mk("loops")))
            if star is not None:
                segs.append(mk("kvstar", star))
            st.heap[(o, "c")] = mk("dict", *segs)
            return o
        if n in ("collections.OrderedDict", "collections.defaultdict"):
            o = self.new_obj("dict")
            st.heap[(o, "c")] = mk("dict")
            return o
        if n in ("copy.copy", "copy.deepcopy") and a:
            c = self.content(a[0], st)
            if c is not None:
                o = self.new_obj(a[0].args[0] if a[0].op == "obj" else c.op)
                st.heap[(o, "c")] = c
                return o
            r = self.copy_obj(a[0], st, n == "copy.deepcopy", {})
            if r is not None:
                return r
            return mk("call", mk("ext", n), self.freeze(a[0], st))
        if n in ("any", "all") and len(a) == 1:
            return self.do_anyall(n, a[0], st)
        if n == "range":
            return mk("range", *a)
        if n == "enumerate":
            return mk("enumerate", *([a[0]] + [v for v in a[1:]] + list(kwargs.values())))
        if n == "zip":
            return mk("zip", *a)
        if n == "map" and len(a) >= 2 and not any(x.op == "star" for x in a):
            o = self.new_obj("list")
            if len(a) == 2:
                c = self.comp_over(a[1], st, lambda e, s: (self.apply(a[0], [e], {}, s, node), TRUE), node)
            else:
                c = self.comp_over(mk("zip", *a[1:]), st, lambda e, s: (self.apply(a[0], [self.getitem(e, const(i), s, node) for i in range(len(a) - 1)], {}, s, node), TRUE), node)
            st.heap[(o, "c")] = c
            self.gens.add(o)
            return o
        if n == "filter" and len(a) == 2:
            o = self.new_obj("list")
            c = self.comp_over(a[1], st, lambda e, s: (e, self.truthy(self.apply(a[0], [e], {}, s, node) if a[0] is not NONE else e, s, node)), node)
            st.heap[(o, "c")] = c
            self.gens.add(o)
            return o
        if n == "next" and a and a[0] in self.gens:
            c = self.content(a[0], st)
            if c is not None and c.op == "list" and not c.args:
                if len(a) > 1:
                    return a[1]
                self.raise_(st, "StopIteration", node)
            if c is not None and c.op == "list" and c.args[0].op == "seg" and c.args[0].args[1] is TRUE and not c.args[0].args[2].args:
                st.heap[(a[0], "c")] = mk("list", *c.args[1:])
                return c.args[0].args[0]
        if n == "next" and len(a) == 1 and a[0].op == "obj":
            cl = self.cls_of(a[0])
            k = cl and self.p.find_member(cl, "__next__")
            if k and k[1][0] == "func":
                return self.call_func(self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__next__"), [a[0]], {}, st, node)
        if n == "next":
            self.nseq += 1
            src = self.freeze(a[0], st)
            counter = src.op == "call" and src.args[0].op == "ext" and src.args[0].args[0] == "itertools.count"
            t = mk("draw" if counter else "next", a[0], self.nseq)     # draws of a counter are numbers, pairwise different
            self.effect("next", a[0], None, t, st, node)
            return t
        if n == "id":
            return mk("id", a[0])
        if n == "hash":
            return mk("call", mk("ext", "hash"), *self._targs(a, kwargs, st))
        if n == "functools.partial" and a:
            return mk("partial", *self._targs(a, kwargs, st))
        if n in ("ValueError", "TypeError", "KeyError", "RuntimeError", "NotImplementedError", "Exception",
                 "AssertionError", "AttributeError", "IndexError", "StopIteration", "ZeroDivisionError", "FileNotFoundError", "ArithmeticError"):
            return mk("exc_new", n, *self._targs(a, kwargs, st))
        if n == "functools.cmp_to_key" and len(a) == 1 and not kwargs:
            return mk("call", mk("ext", n), a[0])
        t = mk("call", mk("ext", n), *self._targs(a, kwargs, st))
        self.effect("ext_call", None, n, t, st, node)
        for v in a:
            if v.op == "obj" and (v, "c") in st.heap and short in ("shuffle", "heappush", "heapify", "heappop"):
                st.heap[(v, "c")] = mk(v.args[0], mk("more", fresh_opaque(short)))
        return t

    def vector(self, v, st):
        """the vector a sequence of known numbers makes, or None"""
        if v.op == "vec":
            return v
        ps = self.pieces(v, st) if v.op == "tuple" or v.op == "obj" and v.args[0] == "list" or v.op == "list" else None
        if not ps or any(g is not TRUE or ls for g, e, ls in ps):
            return None
        es = [e for g, e, ls in ps]
        if any(e.op in ("obj", "tuple", "vec", "list", "dict", "set", "fstr", "new", "elem") or e.op == "const" and not _n_(cval(e)) or self.cls_of(e) is not None for e in es):
            return None
        return mk("vec", *es)

    def numpy(self, f, a, kwargs, st, node):
        if f in ("array", "asarray") and len(a) == 1:
            return self.vector(a[0], st)
        if f in ("min", "max", "amin", "amax", "mean", "sum", "prod") and len(a) == 1 and not kwargs and (a[0].op in ("tuple", "list") or a[0].op == "obj" and a[0].args[0] == "list"):
            v = self.vector(a[0], st)
            if v is not None:
                a = [v]
        if f in ("min", "max", "amin", "amax") and len(a) == 1 and not kwargs and a[0].op == "vec":
            return self.call_ext(f[-3:], [mk("tuple", *a[0].args)], {}, st, node)
        if f in ("zeros", "ones") and len(a) == 1 and not kwargs:
            ds = [a[0]] if a[0].op == "const" else list(a[0].args) if a[0].op == "tuple" else []
            if ds and all(d.op == "const" and type(cval(d)) is int and 0 < cval(d) <= 8 for d in ds):
                row = mk("vec", *[const(float(f == "ones"))] * cval(ds[-1]))
                if len(ds) == 1:
                    return row
                if len(ds) == 2:
                    o = self.new_obj("list")
                    st.heap[(o, "c")] = mk("list", *[mk("seg", row, TRUE, mk("loops"))] * cval(ds[0]))
                    return o
        if f in ("exp", "log", "log10", "log2", "sqrt", "abs", "fabs") and len(a) == 1 and a[0].op == "vec" and not kwargs:
            return vmap(lambda x: self.call_ext("numpy." + f, [x], {}, st, node), a[0])
        if f in ("maximum", "minimum") and len(a) == 2 and not kwargs:
            if a[0].op == "vec" or a[1].op == "vec":
                return vmap(lambda x, y: self.call_ext(f[:3], [x, y], {}, st, node), a[0], a[1])
        if f == "average" and len(a) in (1, 2) and set(kwargs) <= {"weights"} and a[0].op == "vec":
            w = kwargs.get("weights", a[1] if len(a) == 2 and not kwargs else NONE if len(a) == 1 else None)
            if w is NONE:
                return self.numpy("mean", a[:1], {}, st, node)
            if w is not None and w.op in ("tuple", "list", "obj"):
                w = self.vector(w, st) or w
            if w is not None and w.op == "vec" and len(w.args) == len(a[0].args):
                return arith("div", self.do_sum(vmap(lambda x, y: arith("mul", x, y), a[0], w), const(0), st), self.do_sum(w, const(0), st))
        if f == "dot" and len(a) == 2 and not kwargs and a[0].op == a[1].op == "vec" and len(a[0].args) == len(a[1].args):
            return self.do_sum(vmap(lambda x, y: arith("mul", x, y), a[0], a[1]), const(0), st)
        if f in ("sum", "mean", "prod") and len(a) == 1 and not kwargs and a[0].op == "vec":
            return self.call_ext({"sum": "sum", "prod": "math.prod"}.get(f, "statistics.mean"), [mk("tuple", *a[0].args)], {}, st, node)
        return None

    def mkcontainer(self, n, a, kwargs, st, node):
        if n == "iter":
            v = a[0]
            if v.op == "tuple" or v.op == "obj" and v.args[0] in ("list", "set") and v not in self.gens:
                segs = self.pieces_as_segs(v, st)
                if all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args for x in segs):
                    o = self.new_obj("list")        # an iterator of its own, consumed by next()
                    self.gens.add(o)
                    st.heap[(o, "c")] = mk("list", *segs)
                    return o
            return v
        kind = {"frozenset": "set"}.get(n, n)
        if not a:
            if kind == "tuple":
                return mk("tuple")
            o = self.new_obj("set" if kind == "set" else "list")
            st.heap[(o, "c")] = mk("set" if kind == "set" else "list")
            return o
        segs = self.pieces_as_segs(a[0], st)
        if kind == "tuple":
            if all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in segs):
                return mk("tuple", *[s.args[0] for s in segs])
            return mk("list", *segs)
        if kind == "sorted" or kind == "reversed":
            src = mk("list", *segs)
            if kind == "reversed" and all(s.op == "seg" and not s.args[2].args for s in segs):
                o = self.new_obj("list")
                st.heap[(o, "c")] = mk("list", *segs[::-1])
                self.gens.add(o)
                return o
            if kind == "sorted" and not kwargs and len(segs) > 1 and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args and s.args[0].op == "const" for s in segs):
                try:
                    vals = sorted((cval(s.args[0]) for s in segs))
                    o = self.new_obj("list")
                    st.heap[(o, "c")] = mk("list", *[mk("seg", const(v), TRUE, mk("loops")) for v in vals])
                    return o
                except TypeError:
                    pass
            if len(segs) <= 1 and all(not s.args[2].args for s in segs if s.op == "seg"):
                o = self.new_obj("list")
                st.heap[(o, "c")] = src
                return o
            if kind == "sorted":
                r = self.sort_decided(segs, kwargs, st, node)
                if r is not None:
                    o = self.new_obj("list")
                    st.heap[(o, "c")] = mk("list", *r)
                    return o
            kwt = []
            for k, v in sorted(kwargs.items()):
                if v.op in ("func", "bound"):
                    # describe the key function by its value on a generic element
                    try:
                        e = sym("<key-arg>")
                        s2 = st.copy()
                        ty = self._segs_type(segs)
                        if ty:
                            self.types[e] = ty
                        sv = self.effects
                        self.effects = []
                        kv = self.apply(v, [e], {}, s2, node)
                        self.effects = sv
                        self.types.pop(e, None)
                        kwt.append(mk("kw", k, self.freeze(kv, s2)))
                        continue
                    except Dead:
                        pass
                kwt.append(mk("kw", k, self.freeze(v, st)))
            t = mk(kind, self.freeze(src, st), *kwt)
            return t
        o = self.new_obj(kind)
        st.heap[(o, "c")] = mk(kind, *(uniq(segs) if kind == "set" else segs))
        return o

    def list_edit(self, name, segs, a, kwargs, st, node):
        """(elements afterwards, value) of an in-place change of a list of known length, where it is decided"""
        ix = lambda t: cval(t) if t.op == "const" and type(cval(t)) is int else None
        if name == "sort" and not a:
            r = segs if len(segs) < 2 else self.sort_decided(segs, kwargs, st, node)
            return None if r is None else (r, NONE)
        if kwargs:
            return None
        if name == "reverse" and not a:
            return segs[::-1], NONE
        if name == "pop" and len(a) < 2 and segs:
            i = ix(a[0]) if a else -1
            if i is not None and -len(segs) <= i < len(segs):
                v = segs.pop(i)
                return segs, v.args[0]
        if name == "insert" and len(a) == 2 and ix(a[0]) is not None:
            segs.insert(ix(a[0]), mk("seg", a[1], TRUE, mk("loops")))
            return segs, NONE
        if name == "remove" and len(a) == 1:
            for i, s in enumerate(segs):
                e = self.csimp(EQ(self.freeze(s.args[0], st), self.freeze(a[0], st)), st.facts)
                if e is TRUE:
                    return segs[:i] + segs[i + 1:], NONE
                if e is not FALSE:
                    return None
        return None

    def sort_decided(self, segs, kwargs, st, node):
        """the elements of a short list in sorted order, when every comparison the sort can make is decided"""
        key, rev = kwargs.get("key"), kwargs.get("reverse", FALSE)
        if self.oracle is None or set(kwargs) - {"key", "reverse"} or not 1 < len(segs) <= 4 or rev.op != "const":
            return None
        if not all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in segs):
            return None
        cmpf = key.args[1] if key is not None and key.op == "call" and key.args[0].op == "ext" and key.args[0].args[0] == "functools.cmp_to_key" and len(key.args) == 2 else None
        if key is not None and cmpf is None and key.op not in ("func", "bound"):
            return None
        s2, sv, self.effects = st.copy(), self.effects, []
        try:
            ks = [s.args[0] if key is None or cmpf is not None else self.apply(key, [s.args[0]], {}, s2, node) for s in segs]

            def less(a, b):
                if cmpf is None:
                    c = LT(self.freeze(a, s2), self.freeze(b, s2))
                else:
                    c = LT(self.freeze(self.apply(cmpf, [a, b], {}, s2, node), s2), const(0))
                c = self.csimp(c, s2.facts)
                if c not in (TRUE, FALSE):
                    raise LookupError
                return c is TRUE
            out = []
            for i in (range(len(ks))[::-1] if rev is not FALSE and cval(rev) else range(len(ks))):
                j = len(out)
                while j and less(ks[i], ks[out[j - 1]]):
                    j -= 1
                out.insert(j, i)
            if rev is not FALSE and cval(rev):
                out = out[::-1]
            return [segs[i] for i in out]
        except (Dead, LookupError):
            return None
        finally:
            self.effects = sv

    def _segs_type(self, segs):
        ts = [self.typeof(s.args[0]) for s in segs if s.op == "seg"]
        if ts and all(x == ts[0] for x in ts):
            return ts[0]
        return None

    def do_len(self, x, st):
        c = self.content(x, st)
        if c is not None:
            if all(s.op in ("seg", "kv") and s.args[-2] is TRUE and not s.args[-1].args for s in c.args) and \
                    (c.op != "set" or len(c.args) < 2 or all(s.args[0].op == "const" for s in c.args)):
                return const(len(c.args))
            c = self.freeze(c, st)
            s = comp_seg(c)
            if s is not None and s.args[1] is TRUE and len(s.args[2].args) == 1:
                return mk("len", s.args[2].args[0])
            return mk("len", c)
        if x.op in ("tuple", "vec"):
            return const(len(x.args))
        if x.op == "const" and isinstance(cval(x), str):
            return const(len(cval(x)))
        if x.op in ("sorted", "reversed", "enumerate"):
            return self.do_len(x.args[0], st)
        cl = self.cls_of(x)
        if cl is not None:
            k = self.p.find_member(cl, "__len__")
            if k:
                f = self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__len__")
                return self.call_func(f, [x], {}, st, None)
        return mk("len", x)

    def do_sum(self, x, start, st):
        segs = self.pieces_as_segs(x, st)
        out = start
        if segs and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in segs) and any(self.cls_of(s.args[0]) is not None for s in segs):
            for s in segs:
                out = self.binop("add", out, s.args[0], st, None)
            return out
        for s in segs:
            if s.op != "seg":
                return arith("add", start, mk("sum", self.freeze(mk("list", *segs), st))) if start is not const(0) else mk("sum", self.freeze(mk("list", *segs), st))
            e, g, ls = s.args
            if not ls.args:
                v = e if g is TRUE else ITE(g, e, const(0))
            else:
                v = mk("sum", self.freeze(mk("list", s), st))
            out = v if out.op == "const" and out.args[1] == 0 else arith("add", out, v)
        return out

    def do_prod(self, x, st):
        segs = self.pieces_as_segs(x, st)
        if any(s.op != "seg" or s.args[2].args for s in segs):
            return mk("prod", self.freeze(x, st))
        out = const(1)
        for s in segs:
            e, g, _ = s.args
            v = e if g is TRUE else ITE(g, e, const(1))
            out = v if out is const(1) else arith("mul", out, v)
        return out

    def copy_obj(self, v, st, deep, memo):
        """copy of an object the analysis created (None: not one of those)"""
        if v.op != "obj":
            return None
        if v in memo:
            return memo[v]
        cl = self.p.classes.get(v.args[0])
        if cl is None or any(self.p.find_member(cl, m) for m in ("__copy__", "__deepcopy__", "__reduce__", "__getstate__")):
            return None
        o = memo[v] = self.new_obj(v.args[0])
        for k in [k for k in st.heap if k[0] is v]:
            x = st.heap[k]
            if deep and isinstance(x, T) and x.op == "obj":
                y = self.copy_obj(x, st, deep, memo)
                if y is None and x.args[0] in ("list", "set", "dict"):
                    y = self.new_obj(x.args[0])
                    st.heap[(y, "c")] = self.content(x, st)
                x = y if y is not None else mk("call", mk("ext", "copy.deepcopy"), self.freeze(x, st))
            st.heap[(o,) + k[1:]] = x
        return o

    def do_anyall(self, n, x, st):
        segs = self.pieces_as_segs(x, st)
        outs = []
        for s in segs:
            if s.op != "seg":
                return mk("truth", mk(n, self.freeze(x, st)))
            e, g, ls = s.args
            c = truth(e)
            c = AND(g, c) if n == "any" else AND(g, NOT(c))
            if not ls.args:
                outs.append(c)
            else:
                for d in reversed(ls.args):
                    c = self.exists(d, c)
                outs.append(c)
        r = OR(*outs)
        return r if n == "any" else NOT(r)

    def exists(self, d, c):
        if c is FALSE:
            return FALSE
        # pull out loop-invariant conjuncts is unnecessary; keep normal form by sorting in AND
        return mk("truth", mk("exists", d, c))

    def isinst(self, x, c, st):
        if c.op == "tuple":
            return OR(*[self.isinst(x, k, st) for k in c.args])
        if x.op == "ite":
            return ITE(x.args[0], self.isinst(x.args[1], c, st), self.isinst(x.args[2], c, st))
        k = self.cls_of(x)
        if c.op == "cls":
            if k is not None:
                d = self.p.classes[c.args[0]]
                if self.p.is_subclass(k, d):
                    return TRUE
                if x.op == "obj" or not self.p.is_subclass(d, k):
                    return FALSE
            elif x.op == "const" or x.op in NONNONE and x.op not in ("obj",):
                return FALSE
            elif x.op == "obj":
                return FALSE
            ty = self.typeof(x)
            if ty and ty[0] in ("str", "int", "float", "list", "dict", "set"):
                return FALSE
        elif c.op == "ext":
            n = c.args[0].split(".")[-1]
            if k is not None and not self.p.ext_bases(k):
                return FALSE
            if x.op == "vec":
                return const(n in ("ndarray", "Iterable"))
            if n in ("Number", "Real", "Complex") and "numbers" in c.args[0]:
                ty = self.typeof(x)
                if x.op == "const":
                    return const(isinstance(cval(x), (int, float, complex) if n != "Real" else (int, float)))
                if ty and ty[0] in ("float", "int", "str", "list", "dict", "set"):
                    return const(ty[0] in ("float", "int"))
                return mk("isinst", x, c) if x.op != "obj" and x.op != "tuple" else FALSE
            if x.op == "obj" and x.args[0] in ("list", "dict", "set"):
                return const(n == x.args[0] or (n in ("Iterable", "Sequence")))
            if x.op == "tuple":
                return const(n in ("tuple", "Iterable"))
            if x.op == "const":
                return const(isinstance(cval(x), getattr(_b, n, ())) if isinstance(getattr(_b, n, None), type) else False)
            ty = self.typeof(x)
            if ty and ty[0] in ("str", "list", "dict", "set"):
                return const(n == ty[0])
            if ty and ty[0] == "float" and n in ("str", "list", "dict", "set", "tuple", "bytes"):
                return FALSE
            if ty and ty[0] in ("float", "int") and x.op == "sym" and x.args[0] in GIVEN and n in ("int", "float", "Decimal", "bool"):
                return const(n == ty[0])
            if n in ("int", "float", "str", "dict", "list", "tuple", "set", "bool", "bytes") and x.op in ("add", "mul", "neg", "div", "pow", "abs") and self.floatval(x):
                return const(n == "float")
            if n in ("int", "float", "str") and x.op in ("lshift", "rshift", "bitlen", "floordiv", "mod", "add", "mul", "neg", "abs") and self.intval(x) and self.given(x):
                return const(n == "int")
            if x.op == "fstr":
                return const(n == "str")
        return mk("isinst", x, c)

    # ---------------------------------------------------------------- methods on non-project objects
    def asdict_(self, v, st, node):
        """a value within a record made by dataclasses.asdict: containers and data objects are copied"""
        if v.op == "tuple":
            return mk("tuple", *[self.asdict_(x, st, node) for x in v.args])
        cl = self.cls_of(v)
        if v.op != "obj" and cl is None:
            return v
        if cl is not None and self.p.dc_fields(cl):
            return self.call_ext("dataclasses.asdict", [v], {}, st, node)
        c = self.content(v, st)
        if c is None:
            return self.copy_obj(v, st, True, {}) or v
        o = self.new_obj(v.args[0])
        out = []
        for x in c.args:
            if x.op == "seg" and not x.args[2].args:
                out.append(mk("seg", self.asdict_(x.args[0], st, node), *x.args[1:]))
            elif x.op == "kv" and not x.args[3].args:
                out.append(mk("kv", x.args[0], self.asdict_(x.args[1], st, node), *x.args[2:]))
            else:
                out.append(x)
        st.heap[(o, "c")] = mk(c.op, *out)
        return o

    def given(self, x):
        return all(v.args[0] in GIVEN for v in syms(x))

    def floatval(self, x):
        """the value is a float whenever there is one"""
        o = x.op
        if o == "const":
            return type(cval(x)) is float
        if o == "sym":
            return x.args[0] in GIVEN and self.typeof(x) == ("float",)
        if o in ("float", "sqrt"):
            return True
        if o in ("add", "mul", "neg", "div", "pow", "abs"):
            xs = [v for v in x.args if isinstance(v, T)]
            return any(self.floatval(v) for v in xs) and all(self.floatval(v) or self.intval(v) for v in xs)
        if o == "ite":
            return self.floatval(x.args[1]) and self.floatval(x.args[2])
        return False

    def intval(self, x):
        """the value is an integer whenever there is one"""
        o = x.op
        if o == "const":
            return type(cval(x)) is int
        if o == "sym":
            return self.typeof(x) == ("int",)
        if o in ("bitlen", "int"):
            return True
        if o == "mcall":
            return x.args[0] == "bit_length"
        if o in ("lshift", "rshift", "bitor", "bitand", "floordiv", "mod", "add", "mul", "neg", "abs", "max", "min"):
            return all(self.intval(v) for v in x.args if isinstance(v, T))
        if o == "pow":
            return all(self.intval(v) for v in x.args) and x.args[1].op == "const" and cval(x.args[1]) >= 0
        if o == "ite":
            return self.intval(x.args[1]) and self.intval(x.args[2])
        return False

    attr_given = {}
    frames = None           # tables of known shape, when a check asks for them
    meth_hook = None        # answers of outside objects, given by a check
    ext_hook = None         # answers of outside functions, given by a check
    attr_hook = None        # attributes of outside objects, given by a check

    def call_meth(self, name, recv, args, kwargs, st, node):
        a = list(args)
        if self.frames is not None and is_table(recv):
            r = self.frames.meth(name, recv, a, kwargs, st, node)
            if r is not None:
                return r
        if self.frames is not None and recv.op == "pdgroup":
            return self.frames.grouped(name, recv, a, kwargs, st, node)
        if self.meth_hook is not None:
            r = self.meth_hook(name, recv, a, kwargs, st)
            if r is not None:
                return r
        if name.startswith("__") and self.cls_of(recv) is None and recv.op not in ("obj", "super", "ext", "cls"):
            if name in self.UNDER1 and not kwargs:
                return self.call_ext(self.UNDER1[name], [recv] + a, kwargs, st, node)
            if name in self.UNDER and len(a) == 1 and not kwargs:
                return self.binop(self.UNDER[name], recv, a[0], st, node)
        c = self.content(recv, st) if recv.op in ("obj", "list", "set", "dict", "tuple") else None
        if recv.op == "const" and type(cval(recv)) is int and name == "bit_length" and not a and not kwargs:
            return const(cval(recv).bit_length())
        if recv.op == "const" and isinstance(cval(recv), str):
            s = cval(recv)
            if name in ("upper", "lower", "strip", "lstrip", "rstrip", "split", "replace", "startswith", "endswith", "join", "format", "capitalize", "title", "isupper", "islower", "isdigit", "isalpha",
                        "isalnum", "isnumeric", "isspace", "zfill", "ljust", "rjust", "center", "swapcase", "casefold", "find", "rfind", "index", "count", "partition", "rpartition", "rsplit", "splitlines",
                        "removeprefix", "removesuffix") \
                    and all(x.op == "const" for x in a) and not kwargs:
                try:
                    r = getattr(s, name)(*[cval(x) for x in a])
                    if isinstance(r, list):
                        o = self.new_obj("list")
                        st.heap[(o, "c")] = mk("list", *[mk("seg", const(v), TRUE, mk("loops")) for v in r])
                        return o
                    if isinstance(r, tuple):
                        return mk("tuple", *[const(v) for v in r])
                    return const(r)
                except Exception:
                    pass
            if name == "format":
                r = self.format_str(s, a, kwargs, st)
                if r is not None:
                    return r
            if name == "join" and len(a) == 1:
                ps = self.pieces_as_segs(a[0], st)
                if ps and all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args for x in ps):
                    parts = []
                    for x in ps:
                        parts += [recv, x.args[0]] if parts else [x.args[0]]
                    return self.fold_str([self.freeze(x, st, 3) for x in parts])
                if all(x.args[1] is TRUE and not x.args[2].args and x.args[0].op == "const" and isinstance(cval(x.args[0]), str) for x in ps):
                    return const(s.join(cval(x.args[0]) for x in ps))
                return mk("join", recv, self.freeze(mk("list", *self.pieces_as_segs(a[0], st)), st))
        if name in self.cfg.ident_methods and not a:
            return recv
        if name == "upper" and recv.op == "mcall" and recv.args[0] == "upper":
            return recv
        if c is not None and c.op == "dict":
            if name in ("keys", "values", "items"):
                return mk("dview", name, recv)
            if name == "get":
                return self.dict_get(recv, c, a[0], a[1] if len(a) > 1 else NONE, st)
            if name == "copy":
                o = self.new_obj("dict")
                st.heap[(o, "c")] = c
                return o
            if name == "update":
                segs = list(c.args)
                if a:
                    c2 = self.content(a[0], st)
                    if c2 is not None and c2.op == "dict":
                        for kv in c2.args:
                            segs = self._dict_put(segs, kv)
                    else:
                        segs.append(mk("kvstar", self.freeze(a[0], st)))
                for k, v in kwargs.items():
                    segs = self._dict_put(segs, mk("kv", const(k), v, TRUE, mk("loops")))
                self._mutate_content(recv, mk("dict", *segs), st, node, "update")
                return NONE
            if name == "clear":
                self._mutate_content(recv, mk("dict"), st, node, "clear")
                return NONE
            if name == "pop" and a:
                v = self.dict_get(recv, c, a[0], a[1] if len(a) > 1 else NONE, st)
                self._mutate_content(recv, mk("dict", *[kv for kv in c.args if not (kv.op == "kv" and kv.args[0] is a[0])]), st, node, "pop")
                return v
            if name == "setdefault" and a:
                v = self.dict_get(recv, c, a[0], NONE, st)
                self._mutate_content(recv, mk("dict", *(c.args + (mk("kv", a[0], a[1] if len(a) > 1 else NONE, TRUE, mk("loops", *st.loops)),))), st, node, name)
                return v
        elif c is not None and c.op in ("list", "set"):
            fix = uniq if c.op == "set" else (lambda x: x)
            if name in ("append", "add") and len(a) == 1:
                self._mutate_content(recv, mk(c.op, *fix(c.args + (mk("seg", a[0], TRUE, mk("loops")),))), st, node, name)
                return NONE
            if name in ("extend", "update") and len(a) == 1:
                segs = self.pieces_as_segs(a[0], st)
                self._mutate_content(recv, mk(c.op, *fix(c.args + tuple(segs))), st, node, name)
                return NONE
            if c.op == "set" and name in ("union", "intersection", "difference") and not kwargs:
                r = self.setop(name, [recv] + a, st)
                if r is not None:
                    return r
            if c.op == "set" and name in ("issubset", "issuperset", "isdisjoint") and len(a) == 1 and not kwargs:
                g1, g2 = self.pieces_as_segs(recv, st), self.pieces_as_segs(a[0], st)
                if all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args and x.args[0].op == "const" for x in list(g1) + list(g2)):
                    e1, e2 = {x.args[0] for x in g1}, {x.args[0] for x in g2}
                    return const(e1 <= e2 if name == "issubset" else e1 >= e2 if name == "issuperset" else not e1 & e2)
            if name == "copy":
                o = self.new_obj(c.op)
                st.heap[(o, "c")] = c
                return o
            if name == "clear":
                self._mutate_content(recv, mk(c.op), st, node, name)
                return NONE
            if name == "index" and len(a) == 1 and c.op == "list" and all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args for x in c.args):
                eqs = [TRUE if x.args[0] is a[0] else self.compare(ast.Eq(), x.args[0], a[0], st, node) for x in c.args]
                if eqs and all(q in (TRUE, FALSE) for q in eqs):
                    if TRUE in eqs:
                        return const(eqs.index(TRUE))
                    self.raise_(st, "ValueError", node)
            if name in ("index", "count"):
                return mk("mcall", name, self.freeze(recv, st), *self._targs(a, kwargs, st))
            if recv.op == "obj" and c.op == "list" and name in ("remove", "pop", "insert", "sort", "reverse") and \
                    all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in c.args):
                r = self.list_edit(name, list(c.args), a, kwargs, st, node)
                if r is not None:
                    self._mutate_content(recv, mk("list", *r[0]), st, node, name)
                    return r[1]
            if name in ("remove", "pop", "insert", "sort", "reverse", "discard"):
                fz = self.freeze(recv, st)
                r = mk("mcall", name, fz, *self._targs(a, kwargs, st))
                if recv.op == "obj":
                    if name == "sort":
                        nv = mk(c.op, mk("seg", mk("elem", mk("sorted", fz)), TRUE, mk("loops", mk("sorted", fz))))
                    else:
                        nv = mk(c.op, mk("more", mk("after_" + name, fz, *self._targs(a, kwargs, st))))
                    self._mutate_content(recv, nv, st, node, name)
                return r
        if recv.op == "ite":
            return self.branch(recv.args[0], st, lambda s: self.call_meth_any(name, recv.args[1], args, kwargs, s, node),
                               lambda s: self.call_meth_any(name, recv.args[2], args, kwargs, s, node))
        if recv.op not in ("obj",):
            if name in ("keys", "values", "items") and not a:
                return mk("dview", name, recv)
            if name == "sqrt" and not a:
                return mk("sqrt", recv)
            if name == "get" and a:
                key = (recv, "i", a[0])
                if key in st.heap:
                    return st.heap[key]
                return mk("mcall", "get", recv, *self._targs(a, kwargs, st))
        t = mk("mcall", name, self.freeze(recv, st), *self._targs(a, kwargs, st))
        if name == "copy" and not a:
            ty = self.typeof(recv)
            if ty:
                self.types.setdefault(t, ty)
            return t
        if name in MUTATORS:
            self.effect("mutcall", recv, name, t, st, node)
        else:
            self.effect("mcall", recv, name, t, st, node)
        return t

    def setop(self, name, vs, st):
        """union, intersection or difference of sets whose elements are known; None otherwise"""
        gs = [self.pieces_as_segs(v, st) for v in vs]
        if name == "union":
            segs = uniq([x for g in gs for x in g])
        else:
            if any(x.args[1] is not TRUE or x.args[2].args or x.args[0].op != "const" for g in gs for x in g):
                return None
            rest = [{x.args[0] for x in g} for g in gs[1:]]
            segs = uniq([x for x in gs[0] if (all(x.args[0] in r for r in rest) if name == "intersection" else not any(x.args[0] in r for r in rest))])
        o = self.new_obj("set")
        st.heap[(o, "c")] = mk("set", *segs)
        return o

    def call_meth_any(self, name, recv, args, kwargs, st, node):
        m = self.getattr(recv, name, st, node)
        return self.apply(m, args, kwargs, st, node)

    def _mutate_content(self, recv, newc, st, node, how):
        if recv.op == "obj":
            st.heap[(recv, "c")] = newc
        self.effect("mutcall", recv, how, newc, st, node)

    def _dict_put(self, segs, kv):
        if kv.op == "kv" and kv.args[2] is TRUE and not kv.args[3].args:
            for i, s in enumerate(segs):
                if s.op == "kv" and s.args[0] is kv.args[0] and s.args[2] is TRUE and not s.args[3].args:
                    return segs[:i] + [kv] + segs[i + 1:]
        return list(segs) + [kv]

    def keyeq(self, a, b, st):
        """equality of two dictionary keys"""
        if a is not b and a.op == "obj" and b.op == "obj" and a.args[0] in self.p.classes:
            c = self.p.classes[a.args[0]]
            if b.args[0] != a.args[0]:
                return FALSE
            if not self.p.find_member(c, "__eq__") and not self.p.ext_bases(c):
                if not c.dataclass:
                    return FALSE
                rs = []
                for n, ann, d, owner, iv in self.p.dc_fields(c):
                    if iv or isinstance(d, ast.Call) and any(k.arg == "compare" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords):
                        continue
                    r = EQ(self.freeze(self.getattr(a, n, st, None), st), self.freeze(self.getattr(b, n, st, None), st))
                    if r is FALSE:
                        return FALSE
                    rs.append(r)
                return AND(*rs)
        return EQ(a, b)

    def dict_get(self, recv, c, key, default, st, strict=False):
        """lookup in a fresh dict"""
        if key.op == "ite":
            return ITE(key.args[0], self.dict_get(recv, c, key.args[1], default, st, strict),
                       self.dict_get(recv, c, key.args[2], default, st, strict))
        val = None
        und = False
        for kv in c.args:
            if kv.op == "kv" and not kv.args[3].args:
                e = self.csimp(self.keyeq(kv.args[0], key, st), st.facts)
                if e is TRUE:
                    v = kv.args[1]
                    val = v if kv.args[2] is TRUE else ITE(kv.args[2], v, val if val is not None else (default or NONE))
                    if kv.args[2] is TRUE:
                        und = False
                elif e is FALSE:
                    continue
                else:
                    und = True
                    base = val if val is not None else (default if default is not None else mk("opaque", "keyerror", key))
                    val = ITE(AND(e, kv.args[2]), kv.args[1], base)
            elif kv.op == "kv":
                k, v, g, ls = kv.args
                if len(ls.args) == 1 and k is mk("elem", ls.args[0]):
                    r = ITEM(mk("dict", kv), key)
                    if not strict:
                        cond = AND(IN(key, ls.args[0]), subst(g, {k: key}))
                        r = ITE(cond, r, val if val is not None else default)
                    val = r
                elif k is key:
                    val = v
                else:
                    if not strict:
                        return mk("mcall", "get", self.freeze(c, st), self.freeze(key, st), default)
                    return ITEM(self.freeze(mk("dict", *c.args), st), key)
            else:
                fz = self.freeze(c, st)
                return ITEM(fz, key) if strict else mk("mcall", "get", fz, key, default)
        if val is not None:
            return val
        if strict:
            if any(kv.op != "kv" for kv in c.args) or und:
                return ITEM(self.freeze(c, st), key)
            return None
        return default

    # ---------------------------------------------------------------- iteration domains
    def attr_missing(self, st, cname, name, node):
        """an attribute a handler of the code asks for and that certainly does not exist"""
        if self.cfg.explicit_raises and any(names is None or names & {"AttributeError", "Exception", "BaseException"} for names, *_ in self.trystack):
            self.raise_(st, "AttributeError", node, mk("exc_new", "AttributeError", const(f"'{cname}' object has no attribute '{name}'")))

    def known_len(self, v, st):
        """number of elements of a sequence whose shape is known"""
        if v.op == "tuple":
            return None if any(x.op in ("star", "seg") for x in v.args) else len(v.args)
        if v.op == "obj" and v.args[0] == "list":
            c = self.content(v, st)
            if c is not None and c.op == "list" and all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args for x in c.args):
                return len(c.args)
        return None

    def check_iterable(self, v, st, node):
        """iterating something that certainly is no iterable raises TypeError"""
        if not self.cfg.explicit_raises:
            return
        if v.op == "const" and (cval(v) is None or isinstance(cval(v), (bool, int, float))):
            self.raise_(st, "TypeError", node, mk("exc_new", "TypeError", const(f"'{type(cval(v)).__name__}' object is not iterable")))
        c = self.p.classes.get(v.args[0]) if v.op == "obj" else None
        if c is not None and not any(self.p.find_member(c, m) for m in ("__iter__", "__getitem__")) \
                and all(len(self.p.bases(k)) == len(k.node.bases) and not k.node.keywords for k in self.p.mro(c)):
            self.raise_(st, "TypeError", node, mk("exc_new", "TypeError", const(f"'{c.name}' object is not iterable")))

    def pieces(self, v, st):
        """iteration of value v: list of (guard, element, loop-domains)"""
        if v.op in ("tuple", "vec"):
            return [(TRUE, a, ()) for a in v.args]
        if v.op == "const" and isinstance(cval(v), str):
            if len(cval(v)) <= 64:
                return [(TRUE, const(ch), ()) for ch in cval(v)]
        if v.op == "ite":
            a = self.pieces(v.args[1], st)
            b = self.pieces(v.args[2], st)
            if len(a) == len(b) and all(g is TRUE and not l for g, e, l in a + b):
                return [(TRUE, ITE(v.args[0], x[1], y[1]), ()) for x, y in zip(a, b)]
            return [(AND(v.args[0], g), e, l) for g, e, l in a] + [(AND(NOT(v.args[0]), g), e, l) for g, e, l in b]
        c = self.content(v, st)
        if c is not None:
            out = []
            for s in c.args:
                if s.op == "seg":
                    out.append((s.args[1], s.args[0], s.args[2].args))
                elif s.op == "kv":
                    out.append((s.args[2], s.args[0], s.args[3].args))
                else:
                    fz = self.freeze(c, st)
                    return [(TRUE, mk("elem", fz), (fz,))]
            return out
        if v.op == "dview":
            kind, d = v.args
            c = self.content(d, st)
            if c is not None and c.op == "dict":
                out = []
                for s in c.args:
                    if s.op != "kv":
                        d = self.freeze(c, st)
                        break
                    k, val, g, ls = s.args
                    e = k if kind == "keys" else val if kind == "values" else mk("tuple", k, val)
                    out.append((g, e, ls.args))
                else:
                    return out
            k = mk("elem", d)
            e = k if kind == "keys" else self.getitem(d, k, st, None) if kind == "values" else mk("tuple", k, self.getitem(d, k, st, None))
            return [(TRUE, e, (d,))]
        if v.op == "range":
            a = v.args
            if len(a) == 1 and a[0].op == "len":
                d = a[0].args[0]
                if d.op == "list" and all(x.op == "seg" for x in d.args):
                    # the positions of a list whose elements are known: one loop per part, under its own condition
                    out = []
                    for i, x in enumerate(d.args):
                        e, g, ls = x.args
                        ix = mk("idx", d) if len(d.args) == 1 else mk("idx", mk("part", d, i))
                        if g is TRUE and not ls.args and all(y.args[1] is TRUE and not y.args[2].args for y in d.args[:i]):
                            ix = const(i)
                        out.append((g, ix, ls.args))
                    return out
                return [(TRUE, mk("idx", d), (d,))]
            if all(x.op == "const" for x in a):
                try:
                    r = list(range(*[cval(x) for x in a]))
                    if len(r) <= 12:
                        return [(TRUE, const(i), ()) for i in r]
                except Exception:
                    pass
            return [(TRUE, mk("elem", v), (v,))]
        if v.op == "enumerate":
            ps = self.pieces(v.args[0], st)
            off = v.args[1] if len(v.args) > 1 else const(0)
            out = []
            for i, (g, e, ls) in enumerate(ps):
                if ls:
                    dom = ls[0] if len(ls) == 1 and g is TRUE and len(ps) == 1 else self.freeze(v.args[0], st)
                    ix = mk("idx", dom)
                    if off is not const(0):
                        ix = arith("add", ix, off)
                else:
                    ix = arith("add", const(i), off) if all(p[0] is TRUE and not p[2] for p in ps[:i]) else fresh_opaque("enum")
                out.append((g, mk("tuple", ix, e), ls))
            return out
        if v.op == "zip":
            pss = [self.pieces(a, st) for a in v.args]
            if all(all(not l and g is TRUE for g, e, l in ps) for ps in pss):
                n = min(len(ps) for ps in pss)
                return [(TRUE, mk("tuple", *[ps[i][1] for ps in pss]), ()) for i in range(n)]
            # same single domain in all arguments
            if all(len(ps) == 1 and len(ps[0][2]) == 1 and ps[0][0] is TRUE for ps in pss):
                doms = {ps[0][2] for ps in pss}
                if len(doms) == 1:
                    return [(TRUE, mk("tuple", *[ps[0][1] for ps in pss]), pss[0][0][2])]
                d = mk("zip", *[ps[0][2][0] for ps in pss])
                return [(TRUE, mk("tuple", *[ps[0][1] for ps in pss]), (d,))]
            fz = self.freeze(v, st)
            return [(TRUE, mk("tuple", *[mk("elem", a) for a in fz.args]), (fz,))]
        cl = self.cls_of(v)
        if cl is not None:
            k = self.p.find_member(cl, "__iter__")
            if k and k[1][0] == "func":
                f = self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__iter__")
                r = self.call_func(f, [v], {}, st, None)
                if r is not v:
                    return self.pieces(r, st)
                r = self.drain(v, cl, st)
                if r is not None:
                    return r
        return [(TRUE, mk("elem", v), (v,))]

    def drain(self, v, cl, st):
        """elements an iterator object of the project delivers until it certainly stops"""
        k = self.p.find_member(cl, "__next__")
        if not (k and k[1][0] == "func" and v.op == "obj"):
            return None
        keep, n0, out = st.copy(), len(st.guard), []
        for _ in range(64):
            sink = []
            self.trystack.append(({"StopIteration"}, sink, len(self.stack), st.env))
            try:
                e = self.call_func(self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__next__"), [v], {}, st, None)
            except Dead:
                return out if sink else None
            finally:
                self.trystack.pop()
            if sink or len(st.guard) > n0:
                break
            out.append((TRUE, e, ()))
        st.take(keep)
        return None

    def pieces_as_segs(self, v, st):
        return [mk("seg", e, g, mk("loops", *ls)) for g, e, ls in self.pieces(v, st)]

    def comp_over(self, v, st, f, node):
        segs = []
        for g, e, ls in self.pieces(v, st):
            s = State(st.env, st.heap, st.guard, st.facts, st.loops + tuple(ls))
            s.push(g)
            val, cond = f(e, s)
            st.heap = s.heap
            segs.append(mk("seg", val, AND(g, cond), mk("loops", *ls)))
        return mk("list", *[x for x in segs if x.args[1] is not FALSE])

    # ================================================================ attributes & items
    def getfield(self, obj, name, st):
        k = (obj, "f", name)
        v = st.heap.get(k)
        if v is not None:
            return restrict(v, st.facts) if v.op == "ite" and st.facts else v
        return None

    def getattr(self, b, name, st, node):
        if b.op == "ite":
            return self.branch(b.args[0], st, lambda s: self.getattr(b.args[1], name, s, node),
                               lambda s: self.getattr(b.args[2], name, s, node))
        if b.op == "mod":
            r = self.p.lookup(b.args[0], name)
            return self.from_lookup(r, name, st)
        if b.op == "ext":
            return mk("ext", b.args[0] + "." + name)
        if b.op == "super":
            return self.super_attr(name, st, node)
        if self.frames is not None and is_table(b):
            return self.frames.attr(b, name, st, node)
        if self.frames is not None and b.op == "pdgroup":
            return mk("meth", name, b)
        if self.attr_hook is not None:
            r = self.attr_hook(b, name)
            if r is not None:
                return r
        if b.op == "call" and (b, name) in self.attr_given:
            return self.attr_given[(b, name)]
        if name == "__class__":
            c = self.cls_of(b)
            if c is not None:
                return mk("cls", c.qual)
            return mk("typeof", b)
        if b.op == "cls":
            c = self.p.classes[b.args[0]]
            if name == "__name__":
                return const(c.name)
            k = self.p.find_member(c, name)
            if k:
                return self.member(k, name, None, b, st, node)
            return ATTR(b, name)
        if b.op == "dcfield" and name == "name":
            return const(b.args[1])
        if name == "__name__" and b.op == "typeof":
            return mk("attr", b, name)
        v = self.getfield(b, name, st)
        if v is not None:
            return v
        if name == "__dict__" and b.op == "obj" and self.cls_of(b) is not None and not st.heap.get((b, "f", "<open>")):
            o = self.new_obj("dict")
            st.heap[(o, "c")] = mk("dict", *[mk("kv", const(k[2]), v, TRUE, mk("loops")) for k, v in st.heap.items() if len(k) == 3 and k[0] is b and k[1] == "f" and isinstance(k[2], str)])
            return o
        c = self.cls_of(b)
        if c is not None:
            k = self.p.find_member(c, name)
            if k is not None:
                kind, nd = k[1]
                if kind == "assign" and b.op != "obj" and (any(f[0] == name for f in self.p.dc_fields(c)) or self.assigned_in(c, name)):
                    return ATTR(b, name)
                return self.member(k, name, b, mk("cls", c.qual), st, node)
            if b.op == "obj" and not self.p.ext_bases(c) and not self.p.find_member(c, "__getattr__") and not st.heap.get((b, "f", "<open>")):
                if name == "__dataclass_fields__" and c.dataclass:
                    fl = self.p.dc_fields(c)
                    return mk("dict", *[mk("kv", const(x[0]), mk("dcfield", c.qual, x[0]), TRUE, mk("loops")) for x in fl if not x[4]])
                if not hasattr(object, name) and name not in ("__dict__", "__doc__", "__module__", "__annotations__", "__weakref__", "__dataclass_params__"):
                    self.attr_missing(st, c.name, name, node)
                    self.effect("noattr", b, name, None, st, node)
            ga = b.op == "obj" and not self.p.ext_bases(c) and not st.heap.get((b, "f", "<open>")) and not name.startswith("__") and self.p.find_member(c, "__getattr__")
            if ga and ga[1][0] == "func" and not any(fr.func and fr.func.node is ga[1][1] for fr in self.stack):
                return self.call_func(self.mkfunc(ga[1][1], ga[0].mod.name, ga[0], None, "__getattr__"), [b, const(name)], {}, st, node)
            return ATTR(b, name)
        if self.cfg.explicit_raises and (b.op == "tuple" or b.op == "obj" and b.args[0] in ("list", "set")) and not hasattr({"list": list, "set": set, "tuple": tuple}[b.op if b.op == "tuple" else b.args[0]], name) and b not in self.gens:
            self.attr_missing(st, b.op if b.op == "tuple" else b.args[0], name, node)
        if self.cfg.explicit_raises and b.op == "const" and b is not NONE and not hasattr(cval(b), name):
            self.attr_missing(st, b.args[0], name, node)
        ct = self.typeof(b)
        if b.op in ("obj", "tuple", "list", "set", "dict", "const", "fstr", "join", "mcall", "sorted") or (ct and ct[0] in ("list", "dict", "set", "str")):
            if b.op == "obj" and b.args[0] == "dict" and not hasattr(dict, name):
                return self.getitem(b, const(name), st, node)
            return mk("meth", name, b)
        return ATTR(b, name)

    def assigned_in(self, c, name):
        key = ("asg", c.qual)
        s = self.modcache.get(key)
        if s is None:
            s = set()
            for k in self.p.mro(c):
                for f in k.funcs:
                    self_n = f.args.args[0].arg if f.args.args else None
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == self_n:
                            s.add(n.attr)
            self.modcache[key] = s
        return name in s

    def member(self, k, name, inst, clsval, st, node):
        owner, (kind, nd) = k
        if kind == "class":
            return mk("cls", nd)
        if kind in ("func", "prop", "static", "clsm"):
            f = self.mkfunc(nd, owner.mod.name, owner, None, nd.name, kind)
            if kind == "prop":
                if inst is None:
                    return f
                return self.call_func(f, [inst], {}, st, node)
            if kind == "static":
                return f
            if kind == "clsm":
                return mk("bound", f, clsval)
            return mk("bound", f, inst) if inst is not None else f
        # class-level assignment: alias of a sibling member, or constant
        if isinstance(nd, ast.Name):
            kk = self.p.find_member(owner, nd.id)
            if kk is not None and kk[1][1] is not nd:
                return self.member(kk, nd.id, inst, clsval, st, node)
        if isinstance(nd, ast.Lambda):
            f = self.mkfunc(nd, owner.mod.name, owner, None, name, "func")
            return mk("bound", f, inst) if inst is not None else f
        return self.class_default(owner, name, nd, st)

    def super_attr(self, name, st, node):
        for fr in reversed(self.stack):
            if fr.func and fr.func.cls is not None and isinstance(fr.func.node, ast.FunctionDef):
                selfn = fr.func.node.args.args[0].arg
                s = fr.cell.get(selfn) if fr.cell else None
                if s is None:
                    break
                c = self.cls_of(s) or (self.p.classes.get(s.args[0]) if s.op == "cls" else None) or fr.func.cls
                m = self.p.mro(c)
                i = m.index(fr.func.cls) if fr.func.cls in m else 0
                for k in m[i + 1:]:
                    if name in k.members:
                        return self.member((k, k.members[name]), name, s if s.op != "cls" else None, mk("cls", c.qual), st, node)
                return mk("superm", s, name)
        return mk("ext", "super." + name)

    def setfield(self, b, name, v, st, node, quiet=False):
        old = st.heap.get((b, "f", name))
        if old is None and b.op != "obj":
            old = ATTR(b, name)
        st.heap[(b, "f", name)] = v
        if not quiet:
            self.effect("setattr", b, name, self.freeze(v, st, 4) if v.op != "obj" or v.args[0] in ("list", "dict", "set") else v, st, node, old=old)

    def setattr(self, b, name, v, st, node):
        if b.op == "ite":
            self.branch(b.args[0], st, lambda s: self.setattr(b.args[1], name, v, s, node),
                        lambda s: self.setattr(b.args[2], name, v, s, node))
            return None
        c = self.cls_of(b)
        if c is not None:
            k = self.p.find_setter(c, name)
            if k:
                f = self.mkfunc(k[1], k[0].mod.name, k[0], None, name + ".setter")
                self.call_func(f, [b, v], {}, st, node)
                return None
        if b.op == "mod" or b.op == "ext":
            self.effect("setglobal", b, name, v, st, node)
            return None
        self.setfield(b, name, v, st, node)

    def getitem(self, b, key, st, node):
        if b.op == "ite":
            return self.branch(b.args[0], st, lambda s: self.getitem(b.args[1], key, s, node),
                               lambda s: self.getitem(b.args[2], key, s, node))
        if self.frames is not None and (b.op == "pdloc" or is_table(b)):
            return self.frames.item(b, key, st, node)
        if b.op == "zip" and b.args and key.op == "const" and type(cval(key)) is int and 0 <= cval(key) < min(len(x.args) if x.op in ("tuple", "vec") else 0 for x in b.args):
            return mk("tuple", *[x.args[cval(key)] for x in b.args])     # taken apart by an assignment
        if key.op == "slice":
            if b.op == "const" and isinstance(cval(b), str) and all(x.op == "const" for x in key.args):
                return const(cval(b)[slice(*[cval(x) for x in key.args])])
            fz = b if b.op in ("tuple", "vec") else self.content(b, st)
            if fz is None:
                fz = self.freeze(b, st)
            if fz.op == "vec" and all(x.op == "const" for x in key.args):
                return mk("vec", *fz.args[slice(*[cval(x) for x in key.args])])
            if fz.op == "tuple" and all(x.op == "const" for x in key.args):
                return mk("tuple", *fz.args[slice(*[cval(x) for x in key.args])])
            if fz.op == "list" and all(x.op == "const" for x in key.args) and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in fz.args):
                o = self.new_obj("list")
                st.heap[(o, "c")] = mk("list", *fz.args[slice(*[cval(x) for x in key.args])])
                return o
            t = mk("item", self.freeze(b, st), key)
            ty = self.typeof(b)
            if ty and ty[0] in ("list", "str"):
                self.types.setdefault(t, ty)
            return t
        if b.op == "const" and isinstance(cval(b), str) and key.op == "const" and type(cval(key)) is int and -len(cval(b)) <= cval(key) < len(cval(b)):
            return const(cval(b)[cval(key)])
        c = self.content(b, st)
        if c is not None:
            if c.op == "dict":
                v = self.dict_get(b, c, key, None, st, strict=True)
                if v is not None:
                    return v
                if all(kv.op == "kv" and not kv.args[3].args for kv in c.args) and (key.op == "const" or not c.args):
                    self.raise_(st, "KeyError", node)
                return ITEM(self.freeze(c, st), self.freeze(key, st))
            if key.op == "const" and isinstance(cval(key), int) and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in c.args):
                i = cval(key)
                if -len(c.args) <= i < len(c.args):
                    return c.args[i].args[0]
            if key.op == "tuple" and len(key.args) == 2 and self.matrix(c):
                i, j = key.args
                rows = [x.args[0].args for x in c.args]
                if i.op == j.op == "const":
                    return rows[cval(i)][cval(j)]
                if self.whole(i) and j.op == "const":
                    return mk("vec", *[r[cval(j)] for r in rows])
                if self.whole(j) and i.op == "const":
                    return mk("vec", *rows[cval(i)])
            if key.op == "idx" and c.op == "list" and c.args and all(s.op == "seg" for s in c.args):
                s = c.args[0]
                if len(c.args) == 1 and s.args[1] is TRUE and len(s.args[2].args) == 1 and s.args[2].args[0] is key.args[0]:
                    return s.args[0]
                fz = self.freeze(c, st)
                if len(c.args) == 1 and key.args[0] is fz:
                    return s.args[0]
                if key.args[0].op == "part" and key.args[0].args[0] is fz:
                    return c.args[key.args[0].args[1]].args[0]
            if any(s.op == "seg" and s.args[0].op == "obj" for s in c.args):
                if len(c.args) == 1 and c.args[0].op == "seg":
                    return c.args[0].args[0]          # representative element object
            r = ITEM(self.freeze(c, st), key)
            return self._reread(r, st)
        k = (b, "i", key)
        v = st.heap.get(k)
        if v is not None:
            if v is DELETED:
                self.raise_(st, "KeyError", node)
            return v
        cl = self.cls_of(b)
        if cl is not None:
            m = self.p.find_member(cl, "__getitem__")
            if m:
                f = self.mkfunc(m[1][1], m[0].mod.name, m[0], None, "__getitem__")
                return self.call_func(f, [b, key], {}, st, node)
        return ITEM(b, self.freeze(key, st))

    def _reread(self, r, st):
        """map-fused loads must see current heap values"""
        if r.op == "attr":
            v = st.heap.get((r.args[0], "f", r.args[1]))
            if v is not None:
                return v
        return r

    @staticmethod
    def matrix(c):
        """the content of a table of numbers (rows that are vectors of one length)"""
        return c.op == "list" and len(c.args) > 0 and all(x.op == "seg" and x.args[1] is TRUE and not x.args[2].args and x.args[0].op == "vec" and len(x.args[0].args) == len(c.args[0].args[0].args) for x in c.args)

    @staticmethod
    def whole(k):
        return k.op == "slice" and all(x is NONE for x in k.args)

    def setitem(self, b, key, v, st, node):
        if b.op == "ite":
            self.branch(b.args[0], st, lambda s: self.setitem(b.args[1], key, v, s, node),
                        lambda s: self.setitem(b.args[2], key, v, s, node))
            return None
        if self.frames is not None and (b.op == "pdloc" or is_table(b)) and self.frames.store(b, key, v, st, node):
            return None
        c = self.content(b, st)
        if c is not None and b.op == "obj":
            if c.op == "dict":
                st.heap[(b, "c")] = mk("dict", *self._dict_put(list(c.args), mk("kv", key, v, TRUE, mk("loops"))))
            elif c.op == "list":
                segs = list(c.args)
                if key.op == "tuple" and len(key.args) == 2 and self.matrix(c):
                    i, j = key.args
                    w = v if v.op == "vec" else self.vector(v, st) if v.op in ("obj", "tuple") else v
                    if w is None or not (i.op == "const" or self.whole(i)) or not (j.op == "const" or self.whole(j)) or self.whole(i) and self.whole(j):
                        raise RuntimeError("assignment to elements of an array")
                    rows = [list(x.args[0].args) for x in segs]
                    cells = [(cval(i), y) for y in range(len(rows[0]))] if self.whole(j) else [(x, cval(j)) for x in range(len(rows))] if self.whole(i) else [(cval(i), cval(j))]
                    if w.op == "vec" and len(w.args) != len(cells):
                        self.raise_(st, "ValueError", node)
                    for n, (x, y) in enumerate(cells):
                        if not (-len(rows) <= x < len(rows) and -len(rows[0]) <= y < len(rows[0])):
                            self.raise_(st, "IndexError", node)
                        rows[x][y] = w.args[n] if w.op == "vec" else w
                    st.heap[(b, "c")] = mk("list", *[mk("seg", mk("vec", *r), TRUE, mk("loops")) for r in rows])
                    self.effect("setitem", b, key, v, st, node)
                    return None
                if key.op == "const" and isinstance(cval(key), int) and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in segs) and -len(segs) <= cval(key) < len(segs):
                    segs[cval(key)] = mk("seg", v, TRUE, mk("loops"))
                    st.heap[(b, "c")] = mk("list", *segs)
                else:
                    st.heap[(b, "c")] = mk("list", mk("more", mk("setitem", self.freeze(c, st), self.freeze(key, st), self.freeze(v, st))))
            self.effect("setitem", b, key, v, st, node)
            return None
        cl = self.cls_of(b)
        if cl is not None:
            m = self.p.find_member(cl, "__setitem__")
            if m:
                f = self.mkfunc(m[1][1], m[0].mod.name, m[0], None, "__setitem__")
                self.call_func(f, [b, key, v], {}, st, node)
                return None
        st.heap[(b, "i", key)] = v
        self.effect("setitem", b, key, v if v.op == "obj" else self.freeze(v, st), st, node)

    # ================================================================ raise
    def raise_(self, st, excname, node, value=None, reraise=False):
        caught = False
        for i in range(len(self.trystack) - 1, -1, -1):
            names, sink, dep, penv = self.trystack[i]
            if names is None or excname in names or "Exception" in names or "BaseException" in names:
                caught = True
                sink.append((self._atframe(st, dep, penv), excname))
                self.excvals[id(sink[-1][0])] = (sink[-1][0], value)
                break
            if self.exc_sub(excname, names):
                caught = True
                sink.append((self._atframe(st, dep, penv), excname))
                self.excvals[id(sink[-1][0])] = (sink[-1][0], value)
                break
        e = self.effect("raise", None, excname, value, st, node, caught=caught, handler=reraise)
        for f in self.stack:
            f.raised = True
        if not caught:
            Dead.last = f"{excname} raised in {e.fn} ({e.file}:{e.line})"
        raise Dead()

    def _atframe(self, st, dep, penv):
        x = st.copy()
        if len(self.stack) != dep:
            x.env = dict(penv)      # raised in a callee: the handler sees its own frame's variables
        return x

    def exc_sub(self, name, names):
        import builtins
        a = getattr(builtins, name, None)
        for n in names:
            b = getattr(builtins, n, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                return True
            for c in self.p.by_name(name):
                if any(k.name == n for k in self.p.mro(c)) or n in [x.split(".")[-1] for x in self.p.ext_bases(c)]:
                    return True
        return False

    # ================================================================ statements
    def block(self, stmts, st):
        for s in stmts:
            self.stmt(s, st)

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.cfg.budget:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.limits.append(f"statement {type(s).__name__} at line {s.lineno}")
            return
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[nm] = mk("mod", full) if full in self.p.mods else mk("ext", full)

    def s_ImportFrom(self, s, st):
        fr = self.stack[-1]
        src = self.p._resolve_from(self.p.mods[fr.func.mod], s) if fr.func.mod in self.p.mods else (s.module or "")
        for a in s.names:
            if src in self.p.mods:
                st.env[a.asname or a.name] = self.from_lookup(self.p.lookup(src, a.name), a.name, st)
            else:
                st.env[a.asname or a.name] = mk("ext", f"{src}.{a.name}")

    def s_Global(self, s, st):
        self.stack[-1].globals_ |= set(s.names)

    def s_Nonlocal(self, s, st):
        pass

    def s_FunctionDef(self, s, st):
        fr = self.stack[-1]
        clo = dict(st.env)
        f = self.mkfunc(s, fr.func.mod, fr.func.cls, clo, s.name)
        _FUNCS[f].closure = clo
        clo[s.name] = f
        st.env[s.name] = f

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = fresh_opaque("localclass:" + s.name)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.stack[-1].returns.append((st.copy(), v))
        raise Dead()

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.stack[-1].globals_:
                self.effect("setglobal", mk("mod", self.stack[-1].func.mod), t.id, v, st, node)
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            if b.op == "vec":
                # arrays are values here: an element is replaced only where nothing else names the array
                if not (isinstance(t.value, ast.Name) and k.op == "const" and isinstance(cval(k), int) and -len(b.args) <= cval(k) < len(b.args)
                        and sum(x is b for x in st.env.values()) == 1 and st.env.get(t.value.id) is b):
                    raise RuntimeError("assignment to elements of an array")
                es = list(b.args)
                es[cval(k)] = v
                st.env[t.value.id] = mk("vec", *es)
                return
            self.setitem(b, k, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, fresh_opaque("starred"), st, node)
                return
            if self.cfg.explicit_raises:
                n = self.known_len(v, st)
                if n is not None and n != len(t.elts):
                    self.raise_(st, "ValueError", node, mk("exc_new", "ValueError", const("too many values to unpack" if n > len(t.elts) else "not enough values to unpack")))
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(i), st, node), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, fresh_opaque("starred"), st, node)

    def s_AugAssign(self, s, st):
        t = s.target
        op = self.BIN.get(type(s.op))
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, t)
            v = self.ev(s.value, st)
            if op == "add" and cur.op == "obj" and cur.args[0] == "list":
                self.call_meth("extend", cur, [v], {}, st, s)
                return
            self.assign(t, self.ibinop(op, cur, v, st, s), st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(b, t.attr, st, s)
            v = self.ev(s.value, st)
            if op == "add" and cur.op == "obj" and cur.args[0] == "list":
                self.call_meth("extend", cur, [v], {}, st, s)
                return
            self.setattr(b, t.attr, self.ibinop(op, cur, v, st, s), st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            cur = self.getitem(b, k, st, s)
            v = self.ev(s.value, st)
            self.setitem(b, k, self.ibinop(op, cur, v, st, s), st, s)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                c = self.content(b, st)
                if c is not None and b.op == "obj":
                    if c.op == "dict" and all(kv.op == "kv" for kv in c.args):
                        st.heap[(b, "c")] = mk("dict", *[kv for kv in c.args if kv.args[0] is not k])
                else:
                    st.heap[(b, "i", k)] = DELETED
                self.effect("delitem", b, k, None, st, s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.effect("delattr", b, t.attr, None, st, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def s_If(self, s, st):
        c = self.truthy(self.ev(s.test, st), st, s)
        self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def s_Assert(self, s, st):
        c = self.csimp(self.truthy(self.ev(s.test, st), st, s), st.facts)
        if c is TRUE:
            return
        b = st.copy()
        b.push(NOT(c))
        try:
            self.raise_(b, "AssertionError", s)
        except Dead:
            pass
        if c is FALSE:
            raise Dead()
        st.push(c)

    def s_Raise(self, s, st):
        if s.exc is None:
            self.raise_(st, "<reraise>", s, reraise=True)
        v = self.ev(s.exc, st)
        self.raise_(st, self.excname(v), s, v)

    def excname(self, v):
        if v.op == "exc_new":
            return v.args[0]
        if v.op == "new" or v.op == "obj":
            return v.args[0].split(".")[-1]
        if v.op == "cls":
            return v.args[0].split(".")[-1]
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "call" and isinstance(v.args[0], T) and v.args[0].op == "ext":
            return v.args[0].args[0].split(".")[-1]
        if v.op == "excvar":
            return "<reraise>"
        return "Exception"

    def s_Try(self, s, st):
        self.ntry += 1
        ntry = self.ntry
        h = mk("truth", mk("exc", ntry))
        names = set()
        for hd in s.handlers:
            ns = self.handler_names(hd)
            if ns is None:
                names = None
                break
            names |= ns
        if not hasattr(self, "trys"):
            self.trys = {}
        self.trys[ntry] = (names if s.handlers else set(), self.stack[-1], s, AND(*st.guard) if st.guard else TRUE)
        pre = st.copy()
        n0 = len(st.guard)
        sink = []
        fr = self.stack[-1]
        nret0 = len(fr.returns)
        self.trystack.append((names if s.handlers else set(), sink, len(self.stack), pre.env))
        e0 = len(self.effects)
        body = st.copy()
        try:
            self.block(s.body, body)
            if True:
                pass
        except Dead:
            body = None
        finally:
            self.trystack.pop()
        eff = self.effects[e0:]
        body_rets = fr.returns[nret0:]
        can_raise = bool(sink) or self.may_raise(s.body)
        if body is not None and s.orelse:
            try:
                self.block(s.orelse, body)
            except Dead:
                body = None
        if not s.handlers:
            if s.finalbody:
                if body is not None:
                    self.block(s.finalbody, body)
                else:
                    x = pre.copy()
                    try:
                        self.block(s.finalbody, x)
                    except Dead:
                        pass
            if body is None:
                raise Dead()
            st.take(body)
            return
        certain = body is None and not body_rets and bool(sink)
        if self.cfg.explicit_raises and not s.finalbody and all(x.loops == pre.loops for x, _ in sink):
            return self.try_explicit(s, st, pre, n0, body, sink)
        hst = None
        # handler entry state
        ent = pre.copy()
        base_states = ([body] if body is not None else []) + [r[0] for r in body_rets]
        if len(sink) >= 1 and (certain or not self.may_raise(s.body)):
            ent = sink[-1][0].copy()
            for x, _ in reversed(sink[:-1]):
                ent = self.merge(AND(*x.guard[n0:]), x, ent, pre.guard, pre.facts, pre.loops)
            ent.guard, ent.facts, ent.loops = pre.guard, pre.facts, pre.loops
        else:
            for bs in base_states + [x for x, _ in sink]:
                for k, v in bs.env.items():
                    o = pre.env.get(k)
                    if v is not o:
                        ent.env[k] = mk("maybe", h, o if o is not None else NONE, v)
                for k, v in bs.heap.items():
                    o = pre.heap.get(k)
                    if v is not o and o is not None:
                        ent.heap[k] = mk("maybe", h, o, v) if k[1] != "c" else v
                    elif o is None:
                        d = self.heap_default(k)
                        ent.heap[k] = v if d is None else mk("maybe", h, d, v)
        only = None
        if certain or not self.may_raise(s.body):
            if sink:
                only = {x for _, x in sink}
        if not certain:
            if not can_raise:
                if body is None:
                    raise Dead()
                if s.finalbody:
                    self.block(s.finalbody, body)
                st.take(body)
                return
            ent.push(h)
        outs = []
        for hd in s.handlers:
            if only is not None:
                ns = self.handler_names(hd)
                if ns is not None and "Exception" not in ns and not any(x in ns or self.exc_sub(x, ns) for x in only):
                    continue
            x = ent.copy()
            if len(s.handlers) > 1 and hd is not s.handlers[-1] and only is None:
                x.push(mk("truth", mk("exctype", ntry, hd.lineno - s.lineno)))
            if hd.name:
                x.env[hd.name] = mk("excvar", ntry)
            try:
                self.block(hd.body, x)
                outs.append(x)
            except Dead:
                pass
        for i in range(nret0, nret0 + len(body_rets)):
            r, v = fr.returns[i]
            r2 = r.copy()
            r2.guard = r.guard[:n0] + (NOT(h),) + r.guard[n0:]
            fr.returns[i] = (r2, v)
        if outs:
            hst = outs[0]
            for x in outs[1:]:
                hst = self.merge(TRUE if False else mk("truth", mk("exctype", ntry, len(outs))), hst, x, hst.guard, hst.facts, hst.loops)
        if body is not None and hst is not None:
            m = self.merge(h, hst, body, pre.guard, pre.facts, pre.loops)
            st.take(m)
        elif body is not None:
            st.take(body)
            st.guard = st.guard[:n0] + (NOT(h),) + st.guard[n0:]
            st.facts = st.facts | {NOT(h)}
        elif hst is not None:
            st.take(hst)
        else:
            if s.finalbody:
                try:
                    self.block(s.finalbody, pre.copy())
                except Dead:
                    pass
            raise Dead()
        if s.finalbody:
            self.block(s.finalbody, st)

    def try_explicit(self, s, st, pre, n0, body, sink):
        """handlers entered from the raise statements of the body only, each under its own path condition"""
        outs = []
        for x, name in sink:
            for hd in s.handlers:
                ns = self.handler_names(hd)
                if ns is None or name in ns or self.exc_sub(name, ns):
                    y = x.copy()
                    if hd.name:
                        v = self.excvals.get(id(x), (None, None))[1]
                        y.env[hd.name] = v if v is not None and v.op == "exc_new" else mk("excvar", self.ntry)
                    try:
                        self.block(hd.body, y)
                        outs.append((AND(*x.guard[n0:]), y))
                    except Dead:
                        pass
                    break
        if body is None:
            if not outs:
                raise Dead()
            res, outs = outs[-1][1], outs[:-1]
        else:
            res = body
        for c, y in outs:
            res = self.merge(c, y, res, pre.guard, pre.facts, pre.loops)
        st.take(res)

    def handler_names(self, hd):
        if hd.type is None:
            return None
        ts = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        ns = set()
        for t in ts:
            ns.add(t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else "Exception")
        if "Exception" in ns or "BaseException" in ns:
            return None
        return ns

    def may_raise(self, body):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Compare)):
                    return True
        return False

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", self.freeze(v, st)), st, s)
        self.block(s.body, st)

    def s_Break(self, s, st):
        self.stack[-1].loopstack[-1].breaks.append(st.copy())
        raise Dead()

    def s_Continue(self, s, st):
        self.stack[-1].loopstack[-1].continues.append(st.copy())
        raise Dead()

    # ---------------------------------------------------------------- loops
    def assigned_names(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.check_iterable(it, st, s)
        ps = [(self.csimp(g, st.facts), e, ls) for g, e, ls in self.pieces(it, st)]
        ps = [p for p in ps if p[0] is not FALSE]
        concrete = sum(1 for p in ps if not p[2])
        if concrete > 40:
            fz = self.freeze(it, st)
            ps = [(TRUE, mk("elem", fz), (fz,))]
        broke = []
        n0 = len(st.guard)
        dead = False
        for g, e, ls in ps:
            if not ls:
                ctl = LoopCtl()
                self.stack[-1].loopstack.append(ctl)
                try:
                    def run(x):
                        self.assign(s.target, e, x, s)
                        alive = True
                        try:
                            self.block(s.body, x)
                        except Dead:
                            alive = False
                        self.rejoin(x, alive, ctl.continues)
                    self.branch(g, st, run, lambda x: None)
                except Dead:
                    dead = True
                finally:
                    self.stack[-1].loopstack.pop()
                broke += ctl.breaks
                if dead:
                    break
            else:
                b = self.abstract_loop(st, tuple(ls), g, lambda x: self.assign(s.target, e, x, s), s.body, s)
        if dead and not broke:
            raise Dead()
        if not dead and s.orelse:
            self.block(s.orelse, st)
        if broke:
            if dead:
                st.take(broke[-1])
                broke = broke[:-1]
            for b in reversed(broke):
                c = AND(*b.guard[n0:])
                m = self.merge(c, b, st, st.guard[:n0], st.facts, st.loops)
                st.take(m)

    def rejoin(self, x, alive, conts):
        """merge continue-states into x"""
        if not conts:
            if not alive:
                raise Dead()
            return
        states = list(conts)
        if not alive:
            x.take(states.pop().copy())
        for c in reversed(states):
            # common guard prefix
            n = 0
            while n < len(c.guard) and n < len(x.guard) and c.guard[n] is x.guard[n]:
                n += 1
            cond = AND(*c.guard[n:])
            res = OR(cond, AND(*x.guard[n:]))
            m = self.merge(cond, c, x, x.guard[:n], frozenset(f for f in x.facts if f in c.facts), x.loops)
            x.take(m)
            if res is not TRUE:
                x.push(res)

    def s_While(self, s, st):
        self.nseq += 1
        d = mk("while", self.nwhile())
        c0 = self.csimp(self.truthy(self.ev_pure(s.test, st), st, s.test), st.facts)
        if c0 is FALSE:
            self.block(s.orelse, st)
            return
        if c0 is TRUE and self.unroll(s, st):
            return
        f = self.counting(s, st)
        if f is not None:
            loop, i, bound_ast = f
            n = self.ev(bound_ast, st)
            brk = [x for x in self.own_loop(s.body) if isinstance(x, ast.Break)]
            self.s_For(loop, st)
            if not brk:
                st.env[i] = n
            return
        self.abstract_loop(st, (d,), None, None, s.body, s, test=s.test)
        if s.orelse:
            self.block(s.orelse, st)

    @staticmethod
    def own_loop(body):
        """the nodes of a loop body that belong to this loop, not to a loop or function inside it"""
        todo = list(body)
        while todo:
            x = todo.pop()
            yield x
            if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += list(ast.iter_child_nodes(x))

    def counting(self, s, st):
        """while i < n: ... i += 1 ...  is  for i in range(n)  with the counter advanced in its place"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name):
            return None
        i = l.id
        v = st.env.get(i)
        if v is None or not (v.op == "const" and type(cval(v)) is int and cval(v) == 0):
            return None
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len" and len(r.args) == 1 and not r.keywords:
            src = r.args[0]
        else:
            src = r
        chain = src
        while isinstance(chain, ast.Attribute):
            chain = chain.value
        if not isinstance(chain, ast.Name):
            return None
        steps = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i and isinstance(x.op, ast.Add)
                 and isinstance(x.value, ast.Constant) and x.value.value == 1 or isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                 and x.targets[0].id == i and ast.unparse(x.value) in (f"{i} + 1", f"1 + {i}")]
        if len(steps) != 1:
            return None
        if any(isinstance(x, ast.Continue) for x in self.own_loop(s.body[:steps[0]])):
            return None
        text = ast.unparse(src)
        stores = 0
        for x in [y for b in s.body for y in ast.walk(b)]:
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                if x.id == i:
                    stores += 1
                elif x.id == chain.id:
                    return None
            elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and ast.unparse(x) == text:
                return None
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Del) and ast.unparse(x.value) == text:
                return None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == text and \
                    x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault", "popitem"):
                return None
        if stores != 1:
            return None
        loop = self._counted.get(id(s))
        if loop is None:
            loop = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [r], []), body=s.body, orelse=s.orelse)
            ast.copy_location(loop, s)
            ast.fix_missing_locations(loop)
            self._counted[id(s)] = loop
        return loop, i, r

    _counted = {}

    def unroll(self, s, st, most=40):
        """a loop whose test and exits are decided at every turn is followed turn by turn"""
        keep, ne, fr = st.copy(), len(self.effects), self.stack[-1]
        nr = len(fr.returns)
        for _ in range(most):
            c = self.csimp(self.truthy(self.ev(s.test, st), st, s.test), st.facts)
            if c is FALSE:
                if s.orelse:
                    self.block(s.orelse, st)
                return True
            if c is not TRUE:
                break
            ctl = LoopCtl()
            self.stack[-1].loopstack.append(ctl)
            alive = True
            try:
                self.block(s.body, st)
            except Dead:
                alive = False
            finally:
                self.stack[-1].loopstack.pop()
            if alive and not ctl.breaks and not ctl.continues:
                continue
            if not alive and len(ctl.continues) == 1 and not ctl.breaks:
                st.take(ctl.continues[0].copy())
                continue
            if not alive and len(ctl.breaks) == 1 and not ctl.continues:
                st.take(ctl.breaks[0].copy())
                return True
            if not alive and not ctl.breaks and not ctl.continues:
                raise Dead()
            break
        st.take(keep)
        del self.effects[ne:]
        del fr.returns[nr:]
        return False

    def nwhile(self):
        self._nw = getattr(self, "_nw", 0) + 1
        return self._nw

    def ev_pure(self, e, st):
        x = st.copy()
        sv = self.effects
        self.effects = []
        try:
            return self.ev(e, x)
        except Dead:
            return fresh_opaque("dead")
        finally:
            self.effects = sv

    def abstract_loop(self, st, doms, g, bind, body, node, test=None):
        fr = self.stack[-1]
        n0 = len(st.guard)
        d = doms[-1]
        names = [n for n in self.assigned_names(body) if n in st.env]
        if isinstance(node, ast.For):
            tn = self.assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0), lineno=0)])
            names = [n for n in names if n not in tn]
        elems = set()
        for x in doms:
            elems.add(mk("elem", x))
            elems.add(mk("idx", x))

        def varying(t):
            return contains_any(t, elems) or (d.op == "while" and False)

        def run(x, havoc_keys, ctl):
            for n in names:
                v = x.env[n]
                if v.op == "obj" or (v.op in ("func", "cls")):
                    # rebinding of a container name: opaque; in-place mutation is tracked through the heap
                    pass
                lv = mk("loopvar", d, n, v)
                x.env[n] = lv
            for k in havoc_keys:
                if k[1] == "c":
                    x.heap[k] = mk(x.heap[k].op if k in x.heap and x.heap[k].op in ("list", "set", "dict") else "list", mk("pre", d, k[0]))
                else:
                    cur = x.heap.get(k)
                    if cur is None:
                        cur = self.heap_default(k) or NONE
                    x.heap[k] = mk("loopvar", d, "heap:%s:%s" % (k[0].key, k[2] if isinstance(k[2], str) else k[2].key), cur)
            x.loops = x.loops + tuple(doms)
            if g is not None:
                x.push(g)
            if bind is not None:
                bind(x)
            if test is not None:
                x.push(self.truthy(self.ev(test, x), x, test))
            alive = True
            try:
                self.block(body, x)
            except Dead:
                alive = False
            return alive

        # ---- dry pass: which pre-existing, loop-invariant heap cells does the body write?
        keys = []
        if True:
            x = st.copy()
            sv = (self.effects, self.nobj, self.nseq, self.ntry, getattr(self, "_nw", 0))
            self.effects = []
            svr = len(fr.returns)
            ctl = LoopCtl()
            fr.loopstack.append(ctl)
            self.dry += 1
            marks = [len(t[1]) for t in self.trystack]
            try:
                if self.dry <= 3:
                    alive = run(x, [], ctl)
                else:
                    alive = False
            except Dead:
                alive = False
            finally:
                fr.loopstack.pop()
                self.dry -= 1
            for t, n in zip(self.trystack, marks):
                del t[1][n:]
            rs = fr.returns[svr:]
            del fr.returns[svr:]
            ends = ([x] if alive else []) + ctl.continues + ctl.breaks + [r[0] for r in rs]
            pre_objs = sv[1]
            for e in ends:
                for k, v in e.heap.items():
                    if st.heap.get(k) is v or k in keys:
                        continue
                    b = k[0]
                    if b.op == "obj" and b.args[1] > pre_objs:
                        continue
                    if varying(b) and k[1] != "c":
                        continue
                    if k[1] == "i" and varying(k[2]):
                        continue
                    keys.append(k)
            self.effects = sv[0]
            self.nobj, self.nseq, self.ntry, self._nw = sv[1], sv[2], sv[3], sv[4]
        # ---- real pass
        ctl = LoopCtl()
        fr.loopstack.append(ctl)
        x = st.copy()
        nret = len(fr.returns)
        try:
            alive = run(x, keys, ctl)
        except Dead:
            alive = False
        finally:
            fr.loopstack.pop()
        ends = ([x] if alive else []) + ctl.continues + ctl.breaks
        # returns from inside the loop
        found = FALSE
        for i in range(nret, len(fr.returns)):
            r, v = fr.returns[i]
            c = AND(*r.guard[n0:])
            ex = c
            for dd in reversed(doms):
                ex = self.exists(dd, ex)
            r2 = r.copy()
            r2.guard = r.guard[:n0] + (ex,)
            r2.loops = st.loops
            if varying(v):
                v = mk("first", d, c, v)
            fr.returns[i] = (r2, v)
            found = OR(found, ex)
        if not ends:
            # every iteration leaves the function (or raises)
            if found is not FALSE:
                st.push(NOT(found))
            else:
                st.push(mk("truth", mk("emptyloop", d)))
            return
        end = ends[0]
        for y in ends[1:]:
            n = 0
            while n < len(y.guard) and n < len(end.guard) and y.guard[n] is end.guard[n]:
                n += 1
            cond = AND(*y.guard[n:])
            end = self.merge(cond, y, end, st.guard, st.facts, st.loops)
        out = st
        broke = bool(ctl.breaks)
        for n in list(end.env):
            v = end.env[n]
            if n in names:
                init = st.env[n]
                lv = mk("loopvar", d, n, init)
                out.env[n] = self.loop_result(d, doms, g, init, lv, v, broke, st)
            elif n not in st.env:
                out.env[n] = mk("last", d, v) if contains_any(v, elems) else v
            elif st.env[n] is not v:
                out.env[n] = mk("last", d, v) if contains_any(v, elems) else v
        for k, v in end.heap.items():
            old = st.heap.get(k)
            if old is v:
                continue
            if k in keys:
                if k[1] == "c":
                    out.heap[k] = self.loop_content(d, doms, g, k, old, v, end, n0, broke)
                else:
                    init = old if old is not None else (self.heap_default(k) or NONE)
                    lv = mk("loopvar", d, "heap:%s:%s" % (k[0].key, k[2] if isinstance(k[2], str) else k[2].key), init)
                    out.heap[k] = self.loop_result(d, doms, g, init, lv, v, broke, st)
            else:
                out.heap[k] = v
        if found is not FALSE:
            out.push(NOT(found))

    def loop_result(self, d, doms, g, init, lv, v, broke, st):
        if v is lv:
            return init
        if not broke and d.op != "while":
            gg = g if g is not None else TRUE
            if v.op == "add" and lv in v.args and not contains(v.args[0] if v.args[1] is lv else v.args[1], lv):
                e = v.args[0] if v.args[1] is lv else v.args[1]
                s = mk("sum", mk("list", mk("seg", e, gg, mk("loops", *doms))))
                return s if init.op == "const" and cval(init) == 0 else arith("add", init, s)
            if v.op == "mul" and lv in v.args and not contains(v.args[0] if v.args[1] is lv else v.args[1], lv):
                e = v.args[0] if v.args[1] is lv else v.args[1]
                s = mk("prod", mk("list", mk("seg", e, gg, mk("loops", *doms))))
                return s if init.op == "const" and cval(init) == 1 else arith("mul", init, s)
            if v.op == "ite" and (v.args[1] is lv or v.args[2] is lv):
                c = v.args[0]
                w = v.args[1]
                if v.args[1] is lv:
                    c, w = NOT(c), v.args[2]
                if not contains(c, lv):
                    if w.op == "add" and lv in w.args and not contains(w.args[0] if w.args[1] is lv else w.args[1], lv):
                        e = w.args[0] if w.args[1] is lv else w.args[1]
                        s = mk("sum", mk("list", mk("seg", e, AND(gg, c), mk("loops", *doms))))
                        return s if init.op == "const" and cval(init) == 0 else arith("add", init, s)
                    if w.op == "const" and is_bool(w) and init.op == "const":
                        # flag set when some element satisfies c
                        ex = AND(gg, c)
                        for dd in reversed(doms):
                            ex = self.exists(dd, ex)
                        return ITE(ex, w, init)
            if is_bool(v) and is_bool(init) and init.op == "const":
                lb = truth(lv)
                # v = lv or c  /  v = lv and c
                if v.op == "or" and lb in v.args:
                    c = AND(gg, OR(*[a for a in v.args if a is not lb]))
                    if not contains(c, lv):
                        for dd in reversed(doms):
                            c = self.exists(dd, c)
                        return OR(init, c)
                if v.op == "and" and lb in v.args:
                    c = AND(gg, NOT(AND(*[a for a in v.args if a is not lb])))
                    if not contains(c, lv):
                        for dd in reversed(doms):
                            c = self.exists(dd, c)
                        return AND(init, NOT(c))
        return mk("after", d, init, v)

    def loop_content(self, d, doms, g, k, old, v, end, n0, broke):
        pre = mk("pre", d, k[0])
        if v.op in ("list", "set", "dict") and v.args and v.args[0] is pre and not any(contains(s, pre) for s in v.args[1:]) and not broke:
            add = []
            for s in v.args[1:]:
                if s.op == "seg":
                    add.append(mk("seg", s.args[0], AND(g if g is not None else TRUE, s.args[1]), mk("loops", *(tuple(doms) + s.args[2].args))))
                elif s.op == "kv":
                    add.append(mk("kv", s.args[0], s.args[1], AND(g if g is not None else TRUE, s.args[2]), mk("loops", *(tuple(doms) + s.args[3].args))))
                else:
                    add.append(mk("more", s))
            return mk(v.op, *((old.args if old is not None else ()) + tuple(add)))
        kind = v.op if v.op in ("list", "set", "dict") else "list"
        if v.op in ("list", "set", "dict") and len(v.args) == 1 and v.args[0] is pre:
            return old
        return mk(kind, mk("more" if kind != "dict" else "kvstar", mk("after", d, old if old is not None else NONE, v)))

    # ================================================================ expressions
    BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor", ast.LShift: "lshift",
           ast.RShift: "rshift", ast.MatMult: "matmul"}

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.cfg.budget:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.limits.append(f"expression {type(e).__name__}")
            return fresh_opaque(type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return mk("ext", "Ellipsis")
        if isinstance(v, (bytes, complex)):
            return mk("const", type(v).__name__, v)
        return const(v)

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, n, st, node):
        v = st.env.get(n)
        if v is not None:
            if v.op == "ite" and st.facts:
                return restrict(v, st.facts)
            return v
        fr = self.stack[-1]
        mod = fr.func.mod if fr.func else None
        # class scope for default / class-level expressions
        if fr.func and fr.func.node is None and fr.func.cls is not None:
            k = self.p.find_member(fr.func.cls, n)
            if k and not (k[1][0] == "assign" and isinstance(k[1][1], ast.Name) and k[1][1].id == n):
                return self.member(k, n, None, mk("cls", fr.func.cls.qual), st, node)
        if mod:
            r = self.p.lookup(mod, n)
            if r is not None:
                return self.from_lookup(r, n, st)
        if hasattr(_b, n):
            return mk("ext", n if n not in () else n)
        self.effect("noname", None, n, None, st, node)
        return fresh_opaque("undefined:" + n)

    def from_lookup(self, r, name, st):
        if r is None:
            return fresh_opaque("missing:" + name)
        k = r[0]
        if k == "func":
            return self.mkfunc(r[2], r[1], None, None, r[2].name)
        if k == "class":
            return mk("cls", r[1])
        if k == "mod":
            return mk("mod", r[1])
        if k == "ext":
            return mk("ext", r[1])
        if k == "assign":
            key = (r[1], name, "g")
            if isinstance(r[2], (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Lambda, ast.Tuple)):
                ck = ("assign", id(r[2]))
                if ck in self.modcache:
                    if self.modcache[ck] is None:
                        return fresh_opaque("cyclic")
                    return self.modcache[ck]
                self.modcache[ck] = None
                v = self.eval_in(r[2], r[1], None, st)
                self.modcache[ck] = v
                return v
            t = mk("attr", mk("mod", r[1]), name)
            if t not in self.types and isinstance(r[2], ast.Call):
                rr = self.p.resolve_expr(r[1], r[2].func)
                if rr and rr[0] == "class":
                    self.settype(t, ("cls", rr[1]))
            if isinstance(r[2], ast.Call) and isinstance(r[2].func, ast.Name) and r[2].func.id in ("Decimal", "float", "int", "NewType"):
                return self.eval_in(r[2], r[1], None, st)
            return t
        if k == "unpack":
            return ITEM(mk("attr", mk("mod", r[1]), "<unpack>"), const(r[3]))
        return fresh_opaque("missing:" + name)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "globals" and k.op == "const" and isinstance(cval(k), str):
            fr = self.stack[-1]
            mod = fr.func.mod if fr.func else None
            r = self.p.lookup(mod, cval(k)) if mod else None
            if r is not None:
                return self.from_lookup(r, cval(k), st)
        return self.getitem(b, k, st, e)

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            o = self.e_List(e, st)
            c = st.heap[(o, "c")]
            if all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in c.args):
                return mk("tuple", *[s.args[0] for s in c.args])
            return o
        return mk("tuple", *[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st, kind="list"):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.pieces_as_segs(self.ev(x.value, st), st)
            else:
                segs.append(mk("seg", self.ev(x, st), TRUE, mk("loops")))
        o = self.new_obj(kind)
        st.heap[(o, "c")] = mk(kind, *(uniq(segs) if kind == "set" else segs))
        return o

    def e_Set(self, e, st):
        return self.e_List(e, st, "set")

    def e_Dict(self, e, st):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st)
                c = self.content(d, st)
                if c is not None and c.op == "dict":
                    for kv in c.args:
                        segs = self._dict_put(segs, kv)
                elif d.op == "ite":
                    segs.append(mk("kvstar", self.freeze(d, st)))
                else:
                    segs.append(mk("kvstar", self.freeze(d, st)))
            else:
                segs = self._dict_put(segs, mk("kv", self.ev(k, st), self.ev(v, st), TRUE, mk("loops")))
        o = self.new_obj("dict")
        st.heap[(o, "c")] = mk("dict", *segs)
        return o

    def comp(self, e, st, leaf):
        """evaluate comprehension generators; leaf(state) -> element; returns list of (value, guard, loops)"""
        out = []

        def rec(i, x, guard, loops):
            if i == len(e.generators):
                out.append((leaf(x), guard, loops))
                return
            gen = e.generators[i]
            it = self.ev(gen.iter, x)
            self.check_iterable(it, x, e)
            for g, el, ls in self.pieces(it, x):
                g = self.csimp(g, x.facts)
                if g is FALSE:
                    continue
                y = State(dict(x.env), x.heap, x.guard, x.facts, x.loops + tuple(ls))
                y.push(g)
                self.assign(gen.target, el, y, e)
                gg = AND(guard, g)
                ok = True
                for cnd in gen.ifs:
                    c = self.csimp(self.truthy(self.ev(cnd, y), y, cnd), y.facts)
                    if c is FALSE:
                        ok = False
                        break
                    y.push(c)
                    gg = AND(gg, c)
                if ok:
                    rec(i + 1, y, gg, loops + tuple(ls))
                x.heap = y.heap
        x0 = State(dict(st.env), st.heap, st.guard, st.facts, st.loops)
        rec(0, x0, TRUE, ())
        st.heap = x0.heap
        return out

    def e_ListComp(self, e, st, kind="list"):
        segs = [mk("seg", v, g, mk("loops", *ls)) for v, g, ls in self.comp(e, st, lambda x: self.ev(e.elt, x))]
        o = self.new_obj(kind)
        st.heap[(o, "c")] = mk(kind, *(uniq(segs) if kind == "set" else segs))
        return o

    def e_GeneratorExp(self, e, st):
        o = self.e_ListComp(e, st)
        self.gens.add(o)
        return o

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, "set")

    def e_DictComp(self, e, st):
        kvs = [mk("kv", kv.args[0], kv.args[1], g, mk("loops", *ls)) for kv, g, ls in
               self.comp(e, st, lambda x: mk("tuple", self.ev(e.key, x), self.ev(e.value, x)))]
        o = self.new_obj("dict")
        segs = []
        for kv in kvs:
            segs = self._dict_put(segs, kv) if kv.args[0].op == "const" else segs + [kv]
        st.heap[(o, "c")] = mk("dict", *segs)
        return o

    def e_Lambda(self, e, st):
        fr = self.stack[-1]
        clo = dict(st.env)
        _FUNCID[0] += 1
        t = mk("func", _FUNCID[0], "<lambda>")
        _FUNCS[t] = Func(e, fr.func.mod if fr.func else "", fr.func.cls if fr.func else None, clo, "<lambda>")
        return t

    def e_IfExp(self, e, st):
        c = self.truthy(self.ev(e.test, st), st, e)
        return self.branch(c, st, lambda x: self.ev(e.body, x), lambda x: self.ev(e.orelse, x))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = e.values

        def rec(i, x):
            v = self.ev(vals[i], x)
            if i == len(vals) - 1:
                return v
            c = self.csimp(self.truthy(v, x, e), x.facts)
            if isand:
                r = self.branch(c, x, lambda y: rec(i + 1, y), lambda y: FALSE if is_bool(v) else v)
            else:
                r = self.branch(c, x, lambda y: TRUE if is_bool(v) else v, lambda y: rec(i + 1, y))
            return r
        v = rec(0, st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return NOT(self.truthy(v, st, e))
        if isinstance(e.op, ast.USub):
            c = self.cls_of(v)
            if c is not None:
                k = self.p.find_member(c, "__neg__")
                if k:
                    return self.call_func(self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__neg__"), [v], {}, st, e)
            return NEG(v)
        m = "__pos__" if isinstance(e.op, ast.UAdd) else "__invert__"
        c = self.cls_of(v)
        k = self.p.find_member(c, m) if c is not None else None
        if k and k[1][0] in ("func", "assign"):
            return self.apply(self.getattr(v, m, st, e), [], {}, st, e)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def truthy(self, v, st, node=None):
        """truth value of v in this state"""
        if is_bool(v):
            return v
        if v.op == "ite":
            return ITE(v.args[0], self.truthy(v.args[1], st, node), self.truthy(v.args[2], st, node))
        if v.op != "obj":
            return truth(v)
        c = self.content(v, st)
        if c is not None:
            if not c.args:
                return FALSE
            gs = []
            for x in c.args:
                gi = {"kv": (2, 3), "seg": (1, 2)}.get(x.op)
                if gi is None or x.args[gi[1]].args:
                    return mk("truth", self.freeze(c, st))
                gs.append(x.args[gi[0]])
            return OR(*gs)
        cl = self.cls_of(v)
        if cl is not None:
            for m in ("__bool__", "__len__"):
                k = self.p.find_member(cl, m)
                if k and k[1][0] in ("func", "assign"):
                    return truth(self.apply(self.getattr(v, m, st, node), [], {}, st, node))
        return TRUE

    DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "floordiv": "__floordiv__",
              "mod": "__mod__", "pow": "__pow__", "bitand": "__and__", "bitor": "__or__", "bitxor": "__xor__",
              "matmul": "__matmul__", "lshift": "__lshift__", "rshift": "__rshift__"}
    DUNDER1 = {"str": "__str__", "int": "__int__", "float": "__float__", "abs": "__abs__", "round": "__round__", "bool": "__bool__", "complex": "__complex__",
               "math.floor": "__floor__", "math.ceil": "__ceil__", "math.trunc": "__trunc__", "divmod": "__divmod__", "operator.index": "__index__"}
    RDUNDER = {k: v.replace("__", "__r", 1) for k, v in DUNDER.items()}
    UNDER = {v: k for k, v in DUNDER.items()}
    UNDER1 = {v: k for k, v in DUNDER1.items()}

    def ibinop(self, op, a, b, st, node):
        """augmented assignment: the in-place method where the class has one"""
        c = self.cls_of(a)
        if c is not None and op in self.DUNDER:
            m = self.DUNDER[op].replace("__", "__i", 1)
            k = self.p.find_member(c, m)
            if k and k[1][0] in ("func", "assign"):
                return self.apply(self.getattr(a, m, st, node), [b], {}, st, node)
        return self.binop(op, a, b, st, node)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(self.BIN[type(e.op)], a, b, st, e)

    def binop(self, op, a, b, st, node):
        if self.frames is not None and (is_table(a) or is_table(b)):
            return self.frames.each(lambda x, y: self.binop(op, x, y, st, node), a, b, st)
        ca, cb = self.cls_of(a), self.cls_of(b)
        if ca is not None:
            k = self.p.find_member(ca, self.DUNDER.get(op, "?"))
            if k and k[1][0] in ("func", "assign"):
                m = self.getattr(a, self.DUNDER[op], st, node)
                return self.apply(m, [b], {}, st, node)
        if cb is not None and ca is None:
            k = self.p.find_member(cb, self.RDUNDER.get(op, "?"))
            if k:
                m = self.getattr(b, self.RDUNDER[op], st, node)
                return self.apply(m, [a], {}, st, node)
        if self.cfg.explicit_raises and op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod") and (a is NONE or b is NONE) and ca is None and cb is None \
                and all(v.op in ("const", "sym", "add", "mul", "div", "pow", "neg", "abs", "fstr") for v in (a, b)) and not (op == "mod" and a is not NONE and self.typeof(a) in (("str",), None)):
            self.raise_(st, "TypeError", node, mk("exc_new", "TypeError", const(f"unsupported operand type for {op}: 'NoneType'")))
        if a.op == "vec" or b.op == "vec":
            # a sequence beside an array is an array
            x, y = [self.vector(v, st) if v.op in ("tuple", "list") or v.op == "obj" and v.args[0] == "list" else v for v in (a, b)]
            if x is not None and y is not None and op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod"):
                return SUB(x, y) if op == "sub" else arith(op, x, y)
            return mk(op, self.freeze(a, st), self.freeze(b, st))
        if op == "add":
            x, y = self.content(a, st), self.content(b, st)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            if x is not None and y is not None and x.op == "list" and y.op == "list" and (a.op == "obj" or b.op == "obj"):
                o = self.new_obj("list")
                st.heap[(o, "c")] = mk("list", *(x.args + y.args))
                return o
            if (x is not None and x.op == "list") or (y is not None and y.op == "list"):
                o = self.new_obj("list")
                st.heap[(o, "c")] = mk("list", *(self.pieces_as_segs(a, st) + self.pieces_as_segs(b, st)))
                return o
        if op == "add" and (self.typeof(a) == ("str",)) and (self.typeof(b) == ("str",) or a.op in ("const", "fstr", "str")) \
                or op == "add" and self.typeof(b) == ("str",) and b.op in ("const", "fstr", "str"):
            return self.fold_str([self.freeze(a, st, 3), self.freeze(b, st, 3)])
        if op == "mod" and a.op == "const" and isinstance(cval(a), str):
            r = self.percent_str(cval(a), b, st)
            if r is not None:
                return r
        if op == "mod" and (self.typeof(a) == ("str",)):
            return mk("fstr", a, self.freeze(b, st))
        if op in ("sub", "bitor", "bitand"):
            x, y = self.content(a, st), self.content(b, st)
            if x is not None and y is not None and x.op == y.op == "set":
                r = self.setop({"sub": "difference", "bitor": "union", "bitand": "intersection"}[op], [a, b], st)
                if r is not None:
                    return r
        if op == "sub":
            if a.op == "obj" or b.op == "obj":
                return mk("setsub", self.freeze(a, st), self.freeze(b, st))
            return SUB(a, b)
        if op in ("bitand", "bitor", "bitxor", "lshift", "rshift") and a.op == "const" and b.op == "const" and all(type(cval(v)) is int for v in (a, b)):
            x, y = cval(a), cval(b)
            if op == "bitand":
                return const(x & y)
            if op == "bitor":
                return const(x | y)
            if op == "bitxor":
                return const(x ^ y)
            if 0 <= y <= 4096:
                return const(x << y if op == "lshift" else x >> y)
        if op in ("bitand", "bitor", "bitxor"):
            if is_bool(a) and is_bool(b):
                return AND(a, b) if op == "bitand" else OR(a, b) if op == "bitor" else NOT(EQ(a, b)) if a is b else mk("bitxor", a, b)
            return mk(op, *sorted((self.freeze(a, st), self.freeze(b, st))))
        if op in ("lshift", "rshift", "matmul"):
            if op == "lshift" and b.op == "const" and isinstance(cval(b), int) and cval(b) >= 0:
                return arith("mul", a, const(2 ** cval(b)))
            return mk(op, a, b)
        if op in ("mul", "div", "floordiv", "mod", "pow", "add"):
            if a.op == "obj" or b.op == "obj":
                return mk(op, self.freeze(a, st), self.freeze(b, st))
            return arith(op, a, b)
        return mk(op, a, b)

    CMPR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    CMPD = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(op, left, right, st, e))
            left = right
        return AND(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st, node):
        k = type(op)
        if self.frames is not None and (is_table(a) or is_table(b)) and k in (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            return self.frames.each(lambda x, y: self.compare(op, x, y, st, node), a, b, st)
        if a.op == "ite" and k in (ast.Is, ast.IsNot, ast.In, ast.NotIn) and self._objish(a):
            return self.branch(a.args[0], st, lambda s: self.compare(op, a.args[1], b, s, node), lambda s: self.compare(op, a.args[2], b, s, node))
        if k is ast.Is or k is ast.IsNot:
            r = isnone(a) if b is NONE else isnone(b) if a is NONE else EQ(a, b) if (a.op in ("const", "cls", "ext") or b.op in ("const", "cls", "ext")) else (TRUE if a is b else mk("is", *sorted((a, b))))
            if b is NONE and self.cls_of(a) is not None and a.op == "obj":
                r = FALSE
            if a is not b and (a.op == "obj" and b.op in ("obj", "const", "tuple") or b.op == "obj" and a.op in ("const", "tuple")):
                r = FALSE       # different allocations
            return r if k is ast.Is else NOT(r)
        if k is ast.In or k is ast.NotIn:
            c = self.content(b, st)
            if b.op == "dview" and b.args[0] == "keys":
                b = b.args[1]
                c = self.content(b, st)
            if b.op == "dview" and b.args[0] == "values":
                r = mk("in", self.freeze(a, st), self.freeze(b, st))
                return r if k is ast.In else NOT(r)
            cl = self.cls_of(b)
            if cl is not None and c is None:
                m = self.p.find_member(cl, "__contains__")
                if m:
                    r = truth(self.call_func(self.mkfunc(m[1][1], m[0].mod.name, m[0], None, "__contains__"), [b, a], {}, st, node))
                    return r if k is ast.In else NOT(r)
            if c is not None and c.op in ("list", "set") and all(x.op == "seg" and x.args[0].op == "const" and isinstance(cval(x.args[0]), str) for x in c.args) and self.typeof(a) in (("float",), ("int",)):
                r = FALSE
            elif a.op == "obj" and self.cls_of(a) is not None and c is not None and c.op in ("list", "set", "tuple") and all(
                    x.op == "seg" and x.args[1] is TRUE and not x.args[2].args for x in c.args) and all(self.cls_of(x.args[0]) is not None for x in c.args):
                # the object itself or an equal one
                r = OR(*[TRUE if x.args[0] is a else truth(self.compare(ast.Eq(), a, x.args[0], st, node)) for x in c.args])
            elif c is not None:
                r = IN(self.freeze(a, st), self.freeze(c, st))
            else:
                # key present / deleted in a symbolic dict
                hv = st.heap.get((b, "i", a))
                if hv is DELETED:
                    r = FALSE
                elif hv is not None:
                    r = TRUE
                else:
                    r = IN(self.freeze(a, st), self.freeze(b, st))
            return r if k is ast.In else NOT(r)
        ca = self.cls_of(a)
        if ca is not None and k in self.CMPD:
            m = self.p.find_member(ca, self.CMPD[k])
            if m and m[1][0] == "func":
                return self.apply(self.getattr(a, self.CMPD[k], st, node), [b], {}, st, node)
            if k is ast.NotEq and not m:
                m = self.p.find_member(ca, "__eq__")
                if m and m[1][0] == "func":
                    return NOT(truth(self.apply(self.getattr(a, "__eq__", st, node), [b], {}, st, node)))
            if k in (ast.Eq, ast.NotEq) and ca.dataclass and a.op == "obj" and (b.op in ("const", "tuple") or b.op == "obj" and self.cls_of(b) is not ca and not (
                    self.cls_of(b) is not None and self.p.find_member(self.cls_of(b), "__eq__"))):
                return const(k is ast.NotEq)
            if k in (ast.Eq, ast.NotEq) and ca.dataclass and self.cls_of(b) is ca:
                fs = [f[0] for f in self.p.dc_fields(ca)]
                r = AND(*[EQ(self.freeze(self.getattr(a, n, st, node), st), self.freeze(self.getattr(b, n, st, node), st)) for n in fs])
                return r if k is ast.Eq else NOT(r)
        cb = self.cls_of(b)
        if ca is None and cb is not None and k in self.CMPD and a.op != "ite":
            r = self.CMPD[self.CMPR.get(k, k)]
            m = self.p.find_member(cb, r)
            if m and m[1][0] == "func":
                return self.apply(self.getattr(b, r, st, node), [a], {}, st, node)
            if k is ast.NotEq and not m:
                m = self.p.find_member(cb, "__eq__")
                if m and m[1][0] == "func":
                    return NOT(truth(self.apply(self.getattr(b, "__eq__", st, node), [a], {}, st, node)))
            if k in (ast.Eq, ast.NotEq) and b.op == "obj" and a.op in ("const", "tuple"):
                m = self.p.find_member(cb, "__eq__")
                if m and m[1][0] == "func":
                    r = truth(self.apply(self.getattr(b, "__eq__", st, node), [a], {}, st, node))
                    return NOT(r) if k is ast.NotEq else r
                if cb.dataclass:
                    return const(k is ast.NotEq)
        if k in (ast.Eq, ast.NotEq):
            xa, xb = [self.content(v, st) if v.op in ("obj", "set") else None for v in (a, b)]
            if xa is not None and xb is not None and xa.op == xb.op == "set" and all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in xa.args + xb.args):
                # equal sets: every element of one is an element of the other
                m = {(x, y): EQ(self.freeze(x, st), self.freeze(y, st)) for x in [s.args[0] for s in xa.args] for y in [s.args[0] for s in xb.args]}
                r = AND(*[OR(*[m[x.args[0], y.args[0]] for y in xb.args]) for x in xa.args], *[OR(*[m[x.args[0], y.args[0]] for x in xa.args]) for y in xb.args])
                return r if k is ast.Eq else NOT(r)
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if k is ast.Eq:
            return EQ(fa, fb)
        if k is ast.NotEq:
            return NOT(EQ(fa, fb))
        if fa.op == "len" and fb.op == "const" and isinstance(cval(fb), int):
            # len(x) > 0, len(x) >= 1
            n = cval(fb)
            ne = NOT(EQ(fa, const(0)))
            if k is ast.Gt and n == 0 or k is ast.GtE and n == 1:
                return ne
            if k is ast.Lt and n == 1 or k is ast.LtE and n == 0:
                return NOT(ne)
        if k is ast.Lt:
            return LT(fa, fb)
        if k is ast.Gt:
            return LT(fb, fa)
        if k is ast.LtE:
            return LE(fa, fb)
        if k is ast.GtE:
            return LE(fb, fa)
        return mk("cmp", fa, fb)

    def _objish(self, a):
        return a.args[1].op == "obj" or a.args[2].op == "obj"

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                x = self.freeze(x, st, 3)
                fmt = ""
                if v.format_spec is not None:
                    fs = [const(p.value) if isinstance(p, ast.Constant) else self.ev(p.value, st) for p in v.format_spec.values]
                    fmt = "".join(str(cval(p)) if p.op == "const" else "{}" for p in fs)
                    if not all(p.op == "const" for p in fs):
                        parts.append(mk("fmt", x, fmt, *[p for p in fs if p.op != "const"]))
                        continue
                    if x.op == "const" and v.conversion == -1 and type(cval(x)) in (int, float, str, bool):
                        try:
                            parts.append(const(format(cval(x), fmt)))
                            continue
                        except ValueError as err:
                            if self.cfg.explicit_raises:
                                self.raise_(st, "ValueError", e, mk("exc_new", "ValueError", const(str(err))))
                if fmt or v.conversion not in (-1, 115):
                    parts.append(mk("fmt", x, fmt + (chr(v.conversion) if v.conversion > 0 else "")))
                else:
                    parts.append(x)
        return self.fold_str(parts)

    def fold_str(self, parts):
        """the text made of these parts, constants folded"""
        out = []
        for p in [y for x in parts for y in (x.args if x.op == "fstr" else (x,))]:
            if p.op == "str" and len(p.args) == 1:
                p = p.args[0]
            if p.op == "const":
                p = const(str(cval(p)))
                if out and out[-1].op == "const":
                    out[-1] = const(cval(out[-1]) + cval(p))
                    continue
                if cval(p) == "":
                    continue
            out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and (out[0].op == "const" or self.typeof(out[0]) == ("str",)):
            return out[0]
        if len(out) == 1 and out[0].op != "fmt":
            return mk("str", out[0])
        return mk("fstr", *out)

    def format_str(self, s, a, kw, st):
        """text.format(...) as its parts; None when a field is not plain"""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                v = a[int(field)] if field.isdigit() else kw[field]
                if v.op in ("star", "starred") or "{" in spec:
                    return None
                v = self.freeze(v, st, 3)
                parts.append(mk("fmt", v, spec + (conv or "")) if spec or conv not in (None, "s") else v)
        except (ValueError, KeyError, IndexError):
            return None
        return self.fold_str(parts)

    def percent_str(self, s, b, st):
        import re
        vals = list(b.args) if b.op == "tuple" else [b]
        parts, n = [], 0
        for lit, cv in re.findall(r"([^%]+)|(%(?:%|s|\.\d+f))", s):
            if lit or cv == "%%":
                parts.append(const(lit or "%"))
                continue
            if n >= len(vals):
                return None
            v = self.freeze(vals[n], st, 3)
            n += 1
            parts.append(v if cv == "%s" else mk("fmt", v, cv[1:]))
        if n != len(vals) or "".join(x or y for x, y in re.findall(r"([^%]+)|(%(?:%|s|\.\d+f))", s)) != s:
            return None
        return self.fold_str(parts)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        fr = self.stack[-1]
        if fr.yields is not None:
            self.call_meth("append", fr.yields, [v], {}, st, e)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        fr = self.stack[-1]
        if fr.yields is not None:
            self.call_meth("extend", fr.yields, [v], {}, st, e)
        return NONE

    def e_Call(self, e, st):
        fn = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                ps = self.pieces(v, st)
                if all(g is TRUE and not ls for g, x, ls in ps):
                    args += [x for g, x, ls in ps]
                else:
                    args.append(mk("star", self.freeze(v, st)))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if v.op == "ite":
                    v = self.merge_dicts(v, st) or v
                    c = self.content(v, st)
                if c is not None and c.op == "dict" and all(kv.op == "kv" and kv.args[0].op == "const" and not kv.args[3].args for kv in c.args):
                    for kv in c.args:
                        n = cval(kv.args[0])
                        if kv.args[2] is TRUE:
                            kwargs[n] = kv.args[1]
                        elif n in kwargs:
                            kwargs[n] = ITE(kv.args[2], kv.args[1], kwargs[n])
                        else:
                            # present only under a condition: default otherwise
                            kwargs[n] = ITE(kv.args[2], kv.args[1], self.param_default(fn, n, st))
                else:
                    kwargs["**"] = v
                    if c is not None and c.op == "dict":
                        for kv in c.args:
                            if kv.op == "kv" and kv.args[0].op == "const" and kv.args[2] is TRUE:
                                kwargs[cval(kv.args[0])] = kv.args[1]
            else:
                kwargs[k.arg] = v
        return self.apply(fn, args, kwargs, st, e)

    def merge_dicts(self, v, st):
        return None

    def param_default(self, fn, n, st):
        """default value of parameter n of callable fn"""
        try:
            if fn.op == "bound":
                fn = fn.args[0]
            if fn.op == "func":
                f = self.func(fn)
                a = f.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
                for k, x in zip(a.kwonlyargs, a.kw_defaults):
                    if x is not None:
                        d[k.arg] = x
                if n in d:
                    return self.eval_in(d[n], f.mod, f.cls, st)
            if fn.op == "cls":
                c = self.p.classes[fn.args[0]]
                for (nm, ann, d, owner, iv) in self.p.dc_fields(c):
                    if nm == n and d is not None:
                        return self.class_default(owner, nm, d, st)
                k = self.p.find_member(c, "__init__")
                if k:
                    return self.param_default(self.mkfunc(k[1][1], k[0].mod.name, k[0], None, "__init__"), n, st)
        except Exception:
            pass
        return fresh_opaque("default:" + n)


def _n_(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)
