"""
Names, attributes, call signatures and definite assignment, decided on the syntax tree of every module.

Types are small sets of atoms, None is "not known":
  ("i", C) instance of class C or a subclass    ("x", C) instance of exactly C      ("c", C) the class C
  ("m", M) module M      ("f", fn, bound)  a project function      ("b", name) a builtin value type
  ("t", (types...)) a tuple of known length     ("e", dotted) something external
A construct is reported only if it fails for every atom of a known type.
"""
import ast
import builtins
import importlib
import sys

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__class__", "WindowsError", "get_ipython", "display"}
STDLIB = getattr(sys, "stdlib_module_names", frozenset())
BT = {"str": str, "list": list, "dict": dict, "tuple": tuple, "set": set, "int": int, "float": float, "bool": bool, "bytes": bytes}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
OBJ_ATTRS = set(dir(object)) | {"__dict__", "__weakref__", "__module__", "__annotations__"}
CLS_ATTRS = set(dir(type)) | OBJ_ATTRS | {"__name__", "__qualname__"}


def stdlib_dir(name):
    """names of a standard-library module (None: not one, or not importable here)"""
    if name.split(".")[0] not in STDLIB:
        return None
    try:
        m = importlib.import_module(name)
    except Exception:
        return None
    return set(getattr(m, "__all__", None) or [x for x in dir(m) if not x.startswith("_")]) | set(dir(m))


def stdlib_get(dotted):
    parts = dotted.split(".")
    if parts[0] not in STDLIB:
        return None
    for k in range(len(parts), 0, -1):
        try:
            m = importlib.import_module(".".join(parts[:k]))
        except Exception:
            continue
        for q in parts[k:]:
            if not hasattr(m, q):
                return None
            m = getattr(m, q)
        return m
    return None


_own = {}


def own(node):
    """the nodes of a scope, not entering nested scopes (their headers belong to this scope)"""
    r = _own.get(id(node))
    if r is None or r[0] is not node:
        r = _own[id(node)] = (node, list(own0(node)))
    return r[1]


def own0(node):
    todo = list(node) if isinstance(node, list) else [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FN):
            todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.Lambda):
            todo += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.ClassDef):
            todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
        elif isinstance(n, COMPS):
            todo.append(n.generators[0].iter)
        else:
            todo += list(ast.iter_child_nodes(n))


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


_bnd = {}


def bound_in(body):
    """names bound by the statements of one scope; names declared global/nonlocal"""
    r = _bnd.get(id(body))
    if r is None or r[0] is not body:
        r = _bnd[id(body)] = (body, bound_in0(body))
    return r[1]


def bound_in0(body):
    b, g = set(), set()
    for n in own(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b.add(n.id)
        elif isinstance(n, FN + (ast.ClassDef,)):
            b.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    b.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            b.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            g |= set(n.names)
        elif isinstance(n, COMPS):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    b.add(w.target.id)
    return b - g, g


def args_of(fn):
    a = fn.args
    out = [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


Q = frozenset({("?",)})


def join(a, b):
    """join of two types; an unknown part stays visible as the atom ('?',)"""
    return (Q if a is None else a) | (Q if b is None else b)


def normt(t):
    return None if not t or t == Q else t


class Names:
    def __init__(self, p):
        self.p = p
        self.subs = {}
        for c in p.classes.values():
            for k in p.mro(c):
                self.subs.setdefault(k.qual, []).append(c)
        self.owner = {}       # id(fn) -> Cls
        self.fmod = {}        # id(fn) -> Mod
        self.encl = {}        # id(fn) -> enclosing function or None
        for m in p.mods.values():
            self._own(m, m.tree, None, None)
        for c in p.classes.values():
            for f in c.funcs:
                self.owner[id(f)] = c
        self.modbind = {}
        self._ret = {}
        self._ftype = {}
        self._env = {}
        self._cls_attrs()

    def _own(self, m, node, fn, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, FN):
                self.fmod[id(n)] = m
                self.encl[id(n)] = fn
                self._own(m, n, n, None)
            else:
                self._own(m, n, fn, cls)

    # ------------------------------------------------------------------ module names
    def module_names(self, m, seen=None):
        """names a module binds (None: open, cannot be listed)"""
        if m.name in self.modbind:
            return self.modbind[m.name]
        seen = seen or set()
        if m.name in seen:
            return set()
        seen.add(m.name)
        b, _ = bound_in(m.tree.body)
        b = set(b)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                b |= set(f.names)
        pre = m.name + "."
        b |= {n[len(pre):].split(".")[0] for n in self.p.mods if n.startswith(pre)}
        for s in m.stars:
            r = self.star(s, seen)
            if r is None:
                b = None
                break
            b |= r
        if len(seen) == 1:
            self.modbind[m.name] = b
        return b

    def star(self, s, seen):
        if s in self.p.mods:
            sm = self.p.mods[s]
            r = self.module_names(sm, seen)
            if r is None:
                return None
            d = sm.defs.get("__all__")
            if d and d[0] == "assign" and isinstance(d[1], (ast.List, ast.Tuple)):
                return {e.value for e in d[1].elts if isinstance(e, ast.Constant)}
            return {x for x in r if not x.startswith("_")}
        return stdlib_dir(s)

    # ------------------------------------------------------------------ attributes of classes
    def _cls_attrs(self):
        self.sets = {}        # qual -> names set on instances (self.x = ..) or class
        self.open = set()     # classes whose attributes cannot be listed
        self.wild = set()     # attribute names assigned on objects of unknown type
        for c in self.p.classes.values():
            s = self.sets.setdefault(c.qual, set())
            s |= set(c.members) | set(c.setters) | {f[0] for f in c.fields}
            if c.node.keywords or [b for b in c.node.bases if self._openbase(c, b)]:
                self.open.add(c.qual)
            if "__getattr__" in c.members or "__getattribute__" in c.members:
                self.open.add(c.qual)
            for f in c.funcs:
                kind = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                a = [x.arg for x in f.args.args]
                first = a[0] if a and "staticmethod" not in kind else None
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if isinstance(n.value, ast.Name) and n.value.id == first:
                            s.add(n.attr)
                        else:
                            self.wild.add(n.attr)
                    elif isinstance(n, ast.Call):
                        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                        if nm in ("setattr", "__setattr__"):
                            k = [x for x in n.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                            if k:
                                s.add(k[0].value)
                            else:
                                self.open.add(c.qual)
                    elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and not isinstance(n.ctx, ast.Load):
                        self.open.add(c.qual)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__":
                        self.open.add(c.qual)
        for m in self.p.mods.values():
            infn = {id(x) for c in self.p.classes.values() if c.mod is m for f in c.funcs for x in ast.walk(f)}
            for n in ast.walk(m.tree):
                if id(n) in infn:
                    continue
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.wild.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    k = [x for x in n.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                    self.wild |= {x.value for x in k}

    def _openbase(self, c, b):
        r = self.p.resolve_expr(c.mod.name, b)
        if r and r[0] == "class":
            return False
        if r and r[0] == "assign":
            rr = self.p.resolve_expr(r[1], r[2])
            return not (rr and rr[0] == "class")
        if r is None and isinstance(b, ast.Name) and b.id == "object":
            return False
        if r is None and isinstance(b, ast.Name) and isinstance(getattr(builtins, b.id, None), type) and issubclass(getattr(builtins, b.id), BaseException):
            return False
        if r is None and c.outer is not None and isinstance(b, ast.Name):
            k = self.p.find_member(c.outer, b.id)
            return not (k and k[1][0] == "class")
        if r == ("ext", "abc.ABC"):
            return False
        return True

    def is_open(self, c):
        return any(k.qual in self.open for k in self.p.mro(c))

    def has(self, c, a):
        """class c (exactly) has an attribute a; None: cannot tell"""
        if a in OBJ_ATTRS or a in self.wild:
            return True
        for k in self.p.mro(c):
            if a in self.sets[k.qual]:
                return True
            if k.dataclass and a in ("__dataclass_fields__", "__post_init__", "__dataclass_params__"):
                return True
            if any(isinstance(b, ast.Name) and isinstance(getattr(builtins, b.id, None), type) and issubclass(getattr(builtins, b.id), BaseException) and hasattr(getattr(builtins, b.id), a) for b in k.node.bases):
                return True
        return None if self.is_open(c) else False

    def has_sub(self, c, a):
        rs = [self.has(d, a) for d in self.subs.get(c.qual, [c])]
        if any(r is True for r in rs):
            return True
        return None if None in rs else False

    # ------------------------------------------------------------------ types
    def env(self, fn):
        """types of the local names of a function (flow-insensitive join)"""
        if id(fn) in self._env:
            return self._env[id(fn)]
        e = self._env[id(fn)] = {}
        m = self.fmod[id(fn)]
        c = self.owner.get(id(fn))
        allb = set(args_of(fn)) | bound_in(fn.body)[0]
        for x in allb:
            e[x] = None
        cur = {}
        bad = set()
        kinds = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
        a = getattr(fn.args, "posonlyargs", []) + fn.args.args
        if c is not None and a and "staticmethod" not in kinds:
            cur[a[0].arg] = frozenset({("c" if "classmethod" in kinds or fn.name == "__new__" else "i", c.qual)})
            a = a[1:]
        nd = len(fn.args.defaults)
        for x in a + fn.args.kwonlyargs:
            t = self.ann(m, x.annotation, c) if x.annotation is not None else None
            cur[x.arg] = Q if t is None else t
        for x in (fn.args.vararg, fn.args.kwarg):
            if x is not None:
                cur[x.arg] = frozenset({("b", "tuple" if x is fn.args.vararg else "dict")})
        nodes = list(own(fn.body))
        self._env[id(fn)] = e2 = {x: normt(cur.get(x)) if x not in bad else None for x in allb}
        assigns, imported = [], {}
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigns.append((t.id, n.value))
                    else:
                        bad |= set(targets(t))
            elif isinstance(n, (ast.AugAssign,)) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    assigns.append((n.target.id, n.value))
                else:
                    bad.add(n.target.id)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                bad |= set(targets(n.target))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bad |= set(targets(n.optional_vars))
            elif isinstance(n, ast.NamedExpr):
                bad.add(n.target.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            elif isinstance(n, FN + (ast.ClassDef, ast.Import, ast.ImportFrom)):
                if isinstance(n, FN):
                    bad.add(n.name)
                elif isinstance(n, ast.ClassDef):
                    bad.add(n.name)
                else:
                    for al in n.names:
                        k = al.asname or al.name.split(".")[0]
                        if isinstance(n, ast.Import):
                            dn = al.name if al.asname else k
                            r = ("mod", dn) if dn in self.p.mods else ("ext", dn)
                        elif al.name == "*":
                            continue
                        else:
                            src = self.p._resolve_from(m, n)
                            r = self.p.lookup(src, al.name) if src in self.p.mods else ("ext", f"{src}.{al.name}") if src else None
                        imported.setdefault(k, []).append(r)
            elif isinstance(n, COMPS):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        bad.add(w.target.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                bad.add(n.id)
        for x, rs in imported.items():
            if len(rs) > 1 or x in cur or x in bad or any(y == x for y, _ in assigns):
                bad.add(x)
            else:
                e2[x] = self.static(rs[0])
        for x in bad:
            e2[x] = None
        for _ in range(3):
            new = {}
            for x, v in assigns:
                if x in bad:
                    continue
                t = self.typ(m, fn, v)
                new[x] = join(new.get(x, cur.get(x, frozenset())), t)
            ch = False
            for x, t in new.items():
                t = normt(t)
                if e2.get(x) != t:
                    e2[x] = t
                    ch = True
            if not ch:
                break
        return e2

    def ann(self, m, a, c=None):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Name) and a.id in BT:
            return None            # builtin annotations are documentation only here
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(m.name, a)
            if r is None and c is not None and isinstance(a, ast.Name):
                k = self.p.find_member(c, a.id)
                if k and k[1][0] == "class":
                    r = ("class", k[1][1])
            if r and r[0] == "class":
                return frozenset({("i", r[1])})
            if r and r[0] == "assign":
                rr = self.p.resolve_expr(r[1], r[2])
                if rr and rr[0] == "class":
                    return frozenset({("i", rr[1])})
        return None

    def static(self, r):
        """type of a resolved module-level entity"""
        if r is None:
            return None
        if r[0] == "func":
            return frozenset({("f", r[2], 0)}) if self.plain(r[2]) else None
        if r[0] == "class":
            return frozenset({("c", r[1])})
        if r[0] == "mod":
            return frozenset({("m", r[1])})
        if r[0] == "ext":
            return frozenset({("e", r[1])})
        if r[0] == "assign":
            m = self.p.mods[r[1]]
            return self.typ(m, None, r[2])
        return None

    def plain(self, fn):
        for d in fn.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "?")
            if nm not in ("staticmethod", "classmethod", "property", "lru_cache", "abstractmethod", "cached_property"):
                return False
        return True

    _depth = 0

    def typ(self, m, fn, e):
        if self._depth > 25:
            return None
        self._depth += 1
        try:
            return self._typ(m, fn, e)
        finally:
            self._depth -= 1

    def _name(self, m, fn, x):
        f = fn
        while f is not None:
            en = self.env(f)
            if x in en and x not in bound_in(f.body)[1]:
                return en[x]
            f = self.encl.get(id(f))
        mn = self.module_names(m)
        if mn is not None and x not in mn:
            if x in BT:
                return frozenset({("bc", x)})
            return None
        if self.rebound(m, x):
            return None
        return self.static(self.p.lookup(m.name, x))

    def rebound(self, m, x):
        key = ("rb", m.name)
        if key not in self._ftype:
            cnt = {}
            for n in own(m.tree.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
                elif isinstance(n, FN + (ast.ClassDef,)):
                    cnt[n.name] = cnt.get(n.name, 0) + 1
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        k = a.asname or a.name.split(".")[0]
                        cnt[k] = cnt.get(k, 0) + 1
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    for k in targets(n.optional_vars):
                        cnt[k] = cnt.get(k, 0) + 2
                if isinstance(n, (ast.For, ast.AugAssign)):
                    for k in targets(n.target):
                        cnt[k] = cnt.get(k, 0) + 2
            for f in ast.walk(m.tree):
                if isinstance(f, ast.Global):
                    for k in f.names:
                        cnt[k] = cnt.get(k, 0) + 2
            self._ftype[key] = cnt
        return self._ftype[key].get(x, 0) > 1

    def _typ(self, m, fn, e):
        if isinstance(e, ast.Constant):
            for k in ("str", "bool", "int", "float", "bytes"):
                if type(e.value).__name__ == k:
                    return frozenset({("b", k)})
            return frozenset({("n",)}) if e.value is None else None
        if isinstance(e, ast.JoinedStr):
            return frozenset({("b", "str")})
        if isinstance(e, (ast.List, ast.ListComp)):
            return frozenset({("b", "list")})
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return frozenset({("b", "dict")})
        if isinstance(e, (ast.Set, ast.SetComp)):
            return frozenset({("b", "set")})
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return frozenset({("b", "tuple")})
            return frozenset({("t", len(e.elts))})
        if isinstance(e, ast.Name):
            return self._name(m, fn, e.id)
        if isinstance(e, ast.IfExp):
            a, b = self.typ(m, fn, e.body), self.typ(m, fn, e.orelse)
            return normt(join(a, b))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                return None
            if isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
                t = self.typ(m, fn, e.args[0])
                return None
            return self.result(self.typ(m, fn, e.func))
        if isinstance(e, ast.Attribute):
            t = self.typ(m, fn, e.value)
            if t is None:
                return None
            out = frozenset()
            for a in t:
                out = join(out, self.attr_type(a, e.attr))
            return normt(out)
        return None

    def result(self, t):
        if t is None:
            return None
        out = frozenset()
        for a in t:
            if a[0] == "c":
                k = self.p.find_member(self.p.classes[a[1]], "__new__")
                out |= Q if k else {("x", a[1])}
            elif a[0] == "f":
                out = join(out, self.ret(a[1]))
            elif a[0] == "bc":
                out |= {("b", a[1])}
            else:
                out |= Q
        return normt(out)

    def ret(self, fn):
        if id(fn) in self._ret:
            return self._ret[id(fn)]
        self._ret[id(fn)] = None
        r = self._ret0(fn)
        if r is None and fn.returns is not None:
            r = self.ann(self.fmod[id(fn)], fn.returns, self.owner.get(id(fn)))
            self._ret[id(fn)] = r
        return r

    def _ret0(self, fn):
        m = self.fmod[id(fn)]
        nodes = list(own(fn.body))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes) or isinstance(fn, ast.AsyncFunctionDef):
            return None
        out = frozenset()
        for n in nodes:
            if isinstance(n, ast.Return):
                if n.value is None:
                    out |= {("n",)}
                    continue
                out = join(out, self.typ(m, fn, n.value))
        self._ret[id(fn)] = normt(out)
        return self._ret[id(fn)]

    def members(self, c, a, exact):
        """the member definitions an attribute of an instance of c may reach: [(class, kind, node)]; None: unknown"""
        out = []
        for d in ([c] if exact else self.subs.get(c.qual, [c])):
            k = self.p.find_member(d, a)
            if k is None:
                if self.has(d, a) is not False:
                    return None
                continue
            o, mem = k
            if any(a in x.setters for x in self.p.mro(d)) and mem[0] != "prop":
                return None
            if mem[0] in ("func", "static", "clsm"):
                # also set on instances: unknown
                if any(self._assigned(x, a) for x in self.p.mro(d)):
                    return None
            out.append((o,) + tuple(mem))
        return out

    def _assigned(self, c, a):
        k = ("as", c.qual)
        if k not in self._ftype:
            self._ftype[k] = {n.attr for f in c.funcs for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return a in self._ftype[k]

    def field_type(self, c, name):
        """type of an instance field: join over every assignment self.name = ... in the class, its bases and subclasses"""
        key = ("fld", c.qual, name)
        if key in self._ftype:
            return self._ftype[key]
        self._ftype[key] = None
        if name in self.wild or self.is_open(c):
            return None
        out = frozenset()
        rel = set()
        for d in self.subs.get(c.qual, [c]):
            if self.is_open(d):
                return None
            rel |= set(self.p.mro(d))
        for k in sorted(rel, key=lambda k: k.qual):
            for f in k.fields:
                if f[0] == name:
                    out = join(out, self.ann(k.mod, f[1], k))
            if name in k.members and k.members[name][0] != "assign":
                return None
            if name in k.members and name not in {f[0] for f in k.fields}:
                out = join(out, self.typ(k.mod, None, k.members[name][1]))
            for f in k.funcs:
                a = f.args.args
                if not a:
                    continue
                for n in own(f.body):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.For)) else []
                    for t in ts:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.ctx, ast.Store):
                                if not (y is t and isinstance(y.value, ast.Name) and y.value.id == a[0].arg and isinstance(n, (ast.Assign, ast.AnnAssign))):
                                    return None
                                if n.value is not None:
                                    out = join(out, self.typ(k.mod, f, n.value))
                    if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "__setattr__"):
                        if any(isinstance(x, ast.Constant) and x.value == name for x in n.args) or not any(isinstance(x, ast.Constant) for x in n.args):
                            out = join(out, self.typ(k.mod, f, n.args[-1]))
        self._ftype[key] = normt(out)
        return self._ftype[key]

    def attr_type(self, a, name):
        p = self.p
        if a[0] in ("i", "x"):
            t = self.field_type(p.classes[a[1]], name)
            if t is not None:
                return t
        if a[0] in ("i", "x"):
            c = p.classes[a[1]]
            ms = self.members(c, name, a[0] == "x")
            if not ms:
                return None
            if a[0] == "i" and len({id(x[2]) for x in ms}) > 1 and len(ms) > 12:
                return None
            out = frozenset()
            for o, kind, node in {(x[0], x[1], x[2]) for x in ms}:
                if kind == "func":
                    if not self.plain(node):
                        return None
                    out |= {("f", node, 1)}
                elif kind == "clsm":
                    out |= {("f", node, 1)}
                elif kind == "static":
                    out |= {("f", node, 0)}
                elif kind == "prop":
                    r = self.ret(node)
                    if r is None:
                        return None
                    out |= r
                elif kind == "class":
                    out |= {("c", node)}
                elif kind == "assign":
                    if name in {f[0] for f in o.fields} or any(self._assigned(k, name) for k in p.mro(o)) or name in self.wild:
                        return None
                    r = self.typ(o.mod, None, node)
                    if r is None:
                        # class-body alias of a method:  name = other
                        if isinstance(node, ast.Name) and node.id in o.members and o.members[node.id][0] in ("func",) and node.id != name:
                            out |= {("f", o.members[node.id][1], 1)}
                            continue
                        return None
                    if any(x[0] == "f" for x in r):
                        r = frozenset(("f", x[1], 1) if x[0] == "f" else x for x in r)
                    out |= r
                else:
                    return None
            return out
        if a[0] == "c":
            c = p.classes[a[1]]
            ms = self.members(c, name, True)
            if not ms:
                return None
            o, kind, node = ms[0]
            if kind == "func":
                return frozenset({("f", node, 0)}) if self.plain(node) else None
            if kind == "clsm":
                return frozenset({("f", node, 1)})
            if kind == "static":
                return frozenset({("f", node, 0)})
            if kind == "class":
                return frozenset({("c", node)})
            if kind == "assign" and name not in {f[0] for f in o.fields}:
                r = self.typ(o.mod, None, node)
                if r is None and isinstance(node, ast.Name) and node.id in o.members and node.id != name and o.members[node.id][0] in ("clsm", "static", "func"):
                    k2, n2 = o.members[node.id]
                    return frozenset({("f", n2, 1 if k2 == "clsm" else 0)})
                return r
            return None
        if a[0] == "m":
            return self.static(p.lookup(a[1], name)) if not self.rebound(p.mods[a[1]], name) else None
        if a[0] == "e":
            return frozenset({("e", a[1] + "." + name)})
        return None

    # ------------------------------------------------------------------ attribute presence
    def lacks(self, a, name):
        """True: an access of this attribute on this atom fails"""
        p = self.p
        if a[0] == "?":
            return name not in self.universe()
        if a[0] == "i":
            return self.has_sub(p.classes[a[1]], name) is False
        if a[0] == "x":
            return self.has(p.classes[a[1]], name) is False
        if a[0] == "c":
            c = p.classes[a[1]]
            if self.is_open(c) or name in CLS_ATTRS or name in self.wild:
                return False
            for d in self.subs.get(c.qual, [c]):
                if self.is_open(d):
                    return False
                for k in p.mro(d):
                    if name in k.members or name in {f[0] for f in k.fields} or name in k.setters:
                        return False
                    for f in k.funcs:      # cls.x = ...
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                                return False
            return True
        if a[0] == "m":
            mn = self.module_names(p.mods[a[1]])
            return mn is not None and name not in mn and name not in BUILTINS and name not in self.wild and not name.startswith("__")
        if a[0] == "b":
            return not hasattr(BT[a[1]], name)
        if a[0] == "t":
            return not hasattr(tuple, name)
        if a[0] == "bc":
            return not hasattr(BT[a[1]], name)
        if a[0] == "n":
            return not hasattr(None, name)
        if a[0] == "e":
            d = a[1]
            if d.split(".")[0] in STDLIB:
                o = stdlib_get(d)
                if o is None:
                    return False
                return not hasattr(o, name) and (isinstance(o, type(sys)) or isinstance(o, type))
        return False

    def universe(self):
        """attribute names anything in the project or any builtin object has"""
        if "u" not in self._ftype:
            u = set(self.wild) | CLS_ATTRS
            for c in self.p.classes.values():
                u |= self.sets[c.qual]
            for m in self.p.mods.values():
                u |= self.module_names(m) or set()
            for b in vars(builtins).values():
                u |= set(dir(b))
            self._ftype["u"] = u
        return self._ftype["u"]

    # ------------------------------------------------------------------ calls
    def misfit(self, a, call):
        """why this call does not fit this atom (None: it fits or is not known)"""
        p = self.p
        npos = len(call.args)
        star = any(isinstance(x, ast.Starred) for x in call.args)
        kws = [k.arg for k in call.keywords if k.arg is not None]
        dstar = any(k.arg is None for k in call.keywords)
        if star:
            npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        if a[0] == "f":
            return self.fit(a[1], a[2], npos, star, kws, dstar)
        if a[0] == "c":
            c = p.classes[a[1]]
            if self.is_open(c) and not any("__getattr__" in k.members for k in p.mro(c)):
                return None
            if any(isinstance(getattr(builtins, getattr(b, "id", ""), None), type) for k in p.mro(c) for b in k.node.bases):
                return None
            if c.qual in self.open and self.p.ext_bases(c):
                return None
            k = p.find_member(c, "__new__")
            if k:
                return None
            k = p.find_member(c, "__init__")
            dc = [x for x in p.mro(c) if x.dataclass]
            if k and (not dc or p.mro(c).index(k[0]) <= p.mro(c).index(dc[0])):
                if k[1][0] != "func":
                    return None
                return self.fit(k[1][1], 1, npos, star, kws, dstar)
            if dc:
                fs = p.dc_fields(c)
                names, need, kwonly = [], [], []
                for (n, ann, d, kk, iv) in fs:
                    if isinstance(d, ast.Call) and any(x.arg == "init" and isinstance(x.value, ast.Constant) and x.value.value is False for x in d.keywords):
                        continue
                    names.append(n)
                    isfield = isinstance(d, ast.Call) and (getattr(d.func, "id", "") == "field" or getattr(d.func, "attr", "") == "field")
                    if d is None or (isfield and not any(x.arg in ("default", "default_factory") for x in d.keywords)):
                        need.append(n)
                return self.arity(c.name, names, need, False, False, [], npos, star, kws, dstar)
            if npos or kws:
                return f"{c.name}() takes no arguments"
            return None
        if a[0] == "x":
            k = p.find_member(p.classes[a[1]], "__call__")
            if k is None:
                return None if self.is_open(p.classes[a[1]]) or "__call__" in self.wild else f"a {p.classes[a[1]].name} is not callable"
            if k[1][0] == "func":
                return self.fit(k[1][1], 1, npos, star, kws, dstar)
            return None
        if a[0] in ("b", "t", "n", "m"):
            return f"a value of type {a[1] if a[0] == 'b' else 'tuple' if a[0] == 't' else 'None' if a[0] == 'n' else 'module'} is not callable"
        return None

    def fit(self, fn, bound, npos, star, kws, dstar):
        g = fn.args
        po = [x.arg for x in getattr(g, "posonlyargs", [])]
        pos = po + [x.arg for x in g.args]
        nd = len(g.defaults)
        need = pos[:len(pos) - nd] if nd else list(pos)
        if bound:
            if not pos:
                return None if g.vararg else f"{fn.name}() takes no arguments"
            if pos[0] in need:
                need = need[1:]
            pos = pos[1:]
        ko = [x.arg for x in g.kwonlyargs]
        needko = [x.arg for x, d in zip(g.kwonlyargs, g.kw_defaults) if d is None]
        return self.arity(fn.name, pos, need, bool(g.vararg), bool(g.kwarg), (ko, needko), npos, star, kws, dstar)

    def arity(self, nm, pos, need, vararg, kwarg, ko, npos, star, kws, dstar):
        kon, kneed = ko if ko else ([], [])
        if npos > len(pos) and not vararg:
            return f"{nm}() takes {len(pos)} positional arguments, {npos} given"
        for k in kws:
            if k not in pos and k not in kon and not kwarg:
                return f"{nm}() has no parameter {k}"
            if k in pos and pos.index(k) < npos:
                return f"{nm}() gets {k} twice"
        if len(set(kws)) < len(kws):
            return f"{nm}() gets a keyword twice"
        if not star and not dstar:
            miss = [x for i, x in enumerate(pos) if x in need and i >= npos and x not in kws]
            miss += [x for x in kneed if x not in kws]
            if miss:
                return f"{nm}() is called without {', '.join(miss)}"
        elif not dstar and not star:
            pass
        if not dstar:
            miss = [x for x in kneed if x not in kws]
            if miss:
                return f"{nm}() is called without {', '.join(miss)}"
        return None
