"""Nothing that prices, matches, trades or optimises depends on clock, randomness, identities or set order.

Two dataflow analyses over every function of the computing modules: where values of nondeterministic
primitives go, and where the order of an unordered collection becomes visible."""
import ast
from vf.checklib import Check, run
from vf.project import Project
from vf.modref import ModRef
from vf.names import Names, own, FN, COMPS, targets, args_of, BUILTINS

RULES = {
    "source": "a clock, random, identity, hash or environment value goes nowhere but into printed text, a declared elapsed-time field, an export file name or a declared random helper",
    "order": "the order of an unordered collection is never made visible: it is only sorted, counted, searched, combined into another unordered collection, or unpacked where it holds one element",
    "hidden": "no function of the computing modules changes module or class state, and none memoises results",
}
CORE = ("carbon.order", "carbon.pair", "carbon.carbon_order_ui", "carbon.routers.", "carbon.simulators.", "carbon.tools.", "core.", "carbon.helpers.sharedvar", "carbon.helpers.floatint", "util")
SRC = ("time.", "random.", "numpy.random", "uuid.", "secrets.", "os.urandom", "os.environ", "os.getenv", "os.getpid", "os.listdir", "os.scandir", "glob.", "threading.", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow",
       "datetime.date.today", "scipy.stats.", "socket.", "gc.", "weakref.", "tempfile.", "platform.")
SRCB = {"id", "hash"}
NOT_SRC = {"time.sleep", "time.strftime"}
# functions that exist to give random numbers or identities; elapsed-time parameters; export file names
DECLARED = {("carbon.tools.cpc.CPCContainer", "u"), ("carbon.tools.cpc.CPCContainer", "u1"), ("carbon.helpers.sharedvar.SharedVar", "id")}
TIMEKW = {"time"}
FILEF = {"open", "join", "to_csv", "to_pickle", "to_json", "to_excel", "savefig", "Path"}
HANDED = {}     # module -> helpers that hand on a clock, random, ... value -> what it is
INSENS = {"sorted", "set", "frozenset", "len", "min", "max", "any", "all", "bool", "print", "isinstance", "type", "str", "repr", "format", "hasattr"}
SETM = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SETOK = SETM | {"add", "discard", "remove", "update", "issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update", "symmetric_difference_update", "clear", "__contains__", "__len__"}


class Fn:
    def __init__(self, node, mod, cls, label):
        self.node, self.mod, self.cls, self.label = node, mod, cls, label
        self.ret = 0
        self.params = {}        # parameters that may receive an unordered collection


def main():
    ck = Check("C11", "Matching, pricing and curve results are reproducible", RULES, floor=300, assumptions=[
        "dictionaries keep insertion order", "numeric libraries are deterministic", "declared random helpers (CPCContainer.u, u1) and SharedVar.id are used only where the caller asks for them"])
    p = Project()
    N = Names(p)
    fns = {}
    for m in p.mods.values():
        if not any(m.name == c or (m.name + ".").startswith(c) or m.name.startswith(c) for c in CORE) or "alpha_router_orig" in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, FN):
                c = N.owner.get(id(n))
                fns[id(n)] = Fn(n, m, c, (c.qual if c else m.name) + "." + n.name)
    U = Unordered(p, N, fns)
    U.solve()
    mr = ModRef(p)

    class Quiet:
        ok = bad = lambda self, *a: None
    n = -1
    while n != sum(map(len, HANDED.values())):
        n = sum(map(len, HANDED.values()))
        for f in fns.values():
            sources(Quiet(), p, N, f)
    for f in fns.values():
        ck.functions.add(f.label)
        sources(ck, p, N, f)
        hidden(ck, p, N, f)
        memos(ck, p, mr, f)
        U.report(ck, f)
    return ck.finish()


# ---------------------------------------------------------------- unordered collections
class Unordered:
    def __init__(self, p, N, fns):
        self.p, self.N, self.fns = p, N, fns
        self.fields = set()        # (class qual, field) holding an unordered collection

    def solve(self):
        for _ in range(6):
            self.changed = False
            for f in self.fns.values():
                self.flow(f, None)
            if not self.changed:
                break

    def report(self, ck, f):
        self.hits = 0
        self.flow(f, ck)
        if not self.hits:
            ck.ok("order", f.label)

    # kinds: 0 ordered, "set" unordered, "seq" a sequence in arbitrary order, "dic" a dict in arbitrary order
    def worst(self, ks):
        ks = [k for k in ks if k]
        return "seq" if "seq" in ks else "dic" if "dic" in ks else "set" if ks else 0

    # -- flow of one function
    def flow(self, f, ck):
        self.f, self.ck = f, ck
        env = {x: f.params.get(x, 0) for x in args_of(f.node)}
        self.block(f.node.body, env, set())

    def block(self, body, env, one):
        """env: names holding an unordered collection; one: names known to hold one element or none here"""
        for st in body:
            self.stmt(st, env, one)

    def stmt(self, st, env, one):
        if isinstance(st, ast.Assign):
            u = self.ex(st.value, env, one)
            for t in st.targets:
                self.bind(t, u, env, one, st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(st.target, self.ex(st.value, env, one), env, one, st.value)
        elif isinstance(st, ast.AugAssign):
            u = self.ex(st.value, env, one)
            if isinstance(st.target, ast.Name):
                env[st.target.id] = self.worst([env.get(st.target.id, 0), ("seq" if u and isinstance(st.op, ast.Add) else u)])
            else:
                self.ex(st.target, env, one)
                if u:
                    self.hit(st.value, "extends a stored sequence")
        elif isinstance(st, ast.Return):
            if st.value is not None:
                u = self.ex(st.value, env, one)
                if u in ("seq", "dic"):
                    self.hit(st.value, "fixes the order of the " + ("sequence" if u == "seq" else "dict") + " that is returned")
                elif u and not self.f.ret:
                    self.f.ret = u
                    self.changed = True
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            u = self.ex(st.iter, env, one)
            if u and not self.single(st.iter, one):
                if not self.harmless(st):
                    self.hit(st.iter, "is iterated over")
            for x in targets(st.target):
                env[x] = 0
            e2 = dict(env)
            self.block(st.body, e2, set(one))
            for k in e2:
                env[k] = self.worst([env.get(k, 0), e2[k]])
            self.block(st.body, dict(env), set(one))
            self.block(st.orelse, env, one)
        elif isinstance(st, ast.While):
            self.ex(st.test, env, one)
            e2 = dict(env)
            self.block(st.body, e2, set(one))
            for k in e2:
                env[k] = self.worst([env.get(k, 0), e2[k]])
            self.block(st.orelse, env, one)
        elif isinstance(st, ast.If):
            self.ex(st.test, env, one)
            a, b = dict(env), dict(env)
            oa, ob = set(one), set(one)
            self.learn(st.test, True, oa)
            self.learn(st.test, False, ob)
            self.block(st.body, a, oa)
            self.block(st.orelse, b, ob)
            ta, tb = self.ends(st.body), self.ends(st.orelse)
            for k in set(a) | set(b):
                env[k] = self.worst([0 if ta else a.get(k, 0), 0 if tb else b.get(k, 0)])
            one.clear()
            one |= (oa | ob) if False else (ob if ta else oa if tb else (oa & ob))
        elif isinstance(st, ast.Assert):
            self.ex(st.test, env, one)
            self.learn(st.test, True, one)
        elif isinstance(st, ast.Try):
            self.block(st.body, env, one)
            for h in st.handlers:
                self.block(h.body, env, set(one))
            self.block(st.orelse, env, one)
            self.block(st.finalbody, env, one)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.ex(i.context_expr, env, one)
            self.block(st.body, env, one)
        elif isinstance(st, FN):
            g = self.fns.get(id(st))
            if g is not None:
                f, self.f = self.f, g
                self.block(st.body, {**env, **{x: g.params.get(x, 0) for x in args_of(st)}}, set())
                self.f = f
            env[st.name] = 0
        elif isinstance(st, (ast.Expr, ast.Raise, ast.Delete)):
            if isinstance(st, ast.Raise):
                return            # error texts may name a set
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.ex(c, env, one)

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def learn(self, t, want, one):
        """len(x) == 1 and the like"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.learn(t.operand, not want, one)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == want:
                for v in t.values:
                    self.learn(v, want, one)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, o = t.left, t.comparators[0], t.ops[0]
            if isinstance(l, ast.Constant):
                l, r = r, l
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
            if isinstance(l, ast.Call) and getattr(l.func, "id", "") == "len" and l.args and isinstance(r, ast.Constant) and isinstance(r.value, int):
                k, v = type(o), r.value
                if not want:
                    k = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}.get(k, k)
                if (k is ast.Eq and v <= 1) or (k is ast.Lt and v <= 2) or (k is ast.LtE and v <= 1):
                    one.add(ast.unparse(l.args[0]))

    def single(self, e, one):
        return ast.unparse(e) in one

    def bind(self, t, u, env, one, val):
        if isinstance(t, ast.Name):
            env[t.id] = u
            s = t.id
            keep = val is not None and ast.unparse(val) in one
            for x in list(one):
                if x == s or x.startswith(s + ".") or x.startswith(s + "["):
                    one.discard(x)
            if keep:
                one.add(s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if u and len(t.elts) > 1 and not self.single(val, one):
                self.hit(val, "is unpacked")
            for e in t.elts:
                for x in targets(e):
                    env[x] = 0
        elif isinstance(t, ast.Attribute):
            c = self.clsof(t.value)
            if u in ("seq", "dic"):
                self.hit(val, "fixes the order of a stored sequence")
            elif u and c is not None:
                k = (c.qual, t.attr)
                if k not in self.fields:
                    self.fields.add(k)
                    self.changed = True
        elif isinstance(t, ast.Subscript) and u in ("seq", "dic"):
            self.hit(val, "fixes the order of a stored sequence")

    def clsof(self, e):
        t = self.N.typ(self.f.mod, self.f.node, e)
        if t:
            for a in t:
                if a[0] in ("i", "x"):
                    return self.p.classes[a[1]]
        return None

    def field_u(self, e):
        c = self.clsof(e.value)
        if c is None:
            return False
        rel = set(self.p.mro(c)) | set(self.N.subs.get(c.qual, []))
        return any((k.qual, e.attr) in self.fields for k in rel)

    def callee(self, call):
        t = self.N.typ(self.f.mod, self.f.node, call.func)
        out = []
        for a in t or ():
            if a[0] == "f" and id(a[1]) in self.fns:
                out.append((self.fns[id(a[1])], a[2]))
            elif a[0] == "c":
                c = self.p.classes[a[1]]
                k = self.p.find_member(c, "__init__")
                if k and k[1][0] == "func" and id(k[1][1]) in self.fns:
                    out.append((self.fns[id(k[1][1])], 1))
                elif any(x.dataclass for x in self.p.mro(c)):
                    out.append((c, 0))
        return out

    # -- does an expression denote an unordered collection? (visiting it reports order-sensitive uses)
    def ex(self, e, env, one):
        if e is None:
            return 0
        if isinstance(e, ast.Name):
            return env.get(e.id, 0)
        if isinstance(e, ast.Set):
            for x in e.elts:
                self.ex(x, env, one)
            return "set" if len(e.elts) > 1 else 0
        if isinstance(e, COMPS):
            e2 = dict(env)
            us = []
            for g in e.generators:
                u = self.ex(g.iter, e2, one)
                if u and not self.single(g.iter, one):
                    us.append(g.iter)
                for x in targets(g.target):
                    e2[x] = 0
                for t in g.ifs:
                    self.ex(t, e2, one)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ex(x, e2, one)
            if isinstance(e, ast.SetComp):
                return "set"
            return ("dic" if isinstance(e, ast.DictComp) else "seq") if us else 0
        if isinstance(e, ast.BoolOp):
            return self.worst([self.ex(v, env, one) for v in e.values])
        if isinstance(e, ast.IfExp):
            self.ex(e.test, env, one)
            oa, ob = set(one), set(one)
            self.learn(e.test, True, oa)
            self.learn(e.test, False, ob)
            return self.worst([self.ex(e.body, env, oa), self.ex(e.orelse, env, ob)])
        if isinstance(e, ast.BinOp):
            a, b = self.ex(e.left, env, one), self.ex(e.right, env, one)
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
                return a or (b if not isinstance(e.op, ast.Sub) else 0)
            return "seq" if (a or b) and isinstance(e.op, ast.Add) else 0
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.expr):
                self.ex(e.value, env, one)
            if self.field_u(e):
                return "set"
            t = self.N.typ(self.f.mod, self.f.node, e.value)
            for a in t or ():
                if a[0] in ("i", "x"):
                    for o in self.N.members(self.p.classes[a[1]], e.attr, a[0] == "x") or []:
                        if o[1] == "prop" and id(o[2]) in self.fns and self.fns[id(o[2])].ret:
                            return "set"
            return 0
        if isinstance(e, ast.Starred):
            u = self.ex(e.value, env, one)
            if u:
                self.hit(e.value, "is spread into a sequence")
            return 0
        if isinstance(e, ast.Call):
            return self.call(e, env, one)
        if isinstance(e, ast.JoinedStr):
            return 0               # texts
        if isinstance(e, ast.Subscript):
            b = self.ex(e.value, env, one)
            self.ex(e.slice, env, one)
            if b == "seq" and not self.single(e.value, one):
                if isinstance(e.slice, ast.Slice):
                    return "seq"
                self.hit(e.value, "gives one of its elements")
            return 0
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if self.ex(e.value, env, one):
                self.hit(e.value, "is generated")
            return 0
        if isinstance(e, ast.Lambda):
            self.ex(e.body, {**env, **{x: 0 for x in args_of(e)}}, set())
            return 0
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    self.ex(k, env, one)
                self.ex(v, env, one)
            return 0
        if isinstance(e, ast.NamedExpr):
            u = self.ex(e.value, env, one)
            env[e.target.id] = u
            return u
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, env, one)
        return 0

    def call(self, e, env, one):
        fn = e.func
        args = list(e.args) + [k.value for k in e.keywords]
        if isinstance(fn, ast.Name) and fn.id in BUILTINS and not env.get(fn.id):
            us = [self.ex(a, env, one) for a in args]
            if fn.id in ("set", "frozenset"):
                return "set"
            if fn.id == "sorted" and us and us[0] and any(k.arg == "key" for k in e.keywords):
                k = [k.value for k in e.keywords if k.arg == "key"][0]
                if not (isinstance(k, ast.Name) and k.id in ("str", "repr")):
                    self.hit(e.args[0], "is sorted by a key that may tie")
                return 0
            if fn.id in ("min", "max") and us and us[0] and any(k.arg == "key" for k in e.keywords):
                self.hit(e.args[0], "is searched by a key that may tie")
                return 0
            if fn.id in INSENS:
                return 0
            if fn.id in ("map", "filter"):
                return "seq" if any(us[1:]) else 0
            if fn.id == "sum":
                if us and us[0] and not self.counts(e.args[0]) and not (not isinstance(e.args[0], COMPS) and self.single(e.args[0], one)):
                    self.hit(e.args[0], "is summed up, the rounding depends on the order")
                return 0
            if fn.id in ("list", "tuple", "enumerate", "reversed", "zip", "dict"):
                bad = [a for a, u in zip(args, us) if u and not self.single(a, one)]
                if fn.id == "zip" and len(bad) > 0 and len(args) > 1:
                    self.hit(bad[0], "is paired up by position")
                    return 0
                return ("dic" if fn.id == "dict" else "seq") if bad else 0
            if fn.id == "next":
                if us and us[0]:
                    self.hit(e.args[0], "gives its first element")
                return 0
            if fn.id == "iter":
                return "seq" if us and us[0] and not self.single(e.args[0], one) else 0
            for a, u in zip(args, us):
                if u and not self.single(a, one):
                    self.hit(a, f"is turned into a sequence by {fn.id}")
            return 0
        if isinstance(fn, ast.Attribute):
            base = self.ex(fn.value, env, one)
            if base == "dic" and fn.attr in ("items", "keys", "values"):
                return "seq"
            if base == "dic" and fn.attr in ("get", "setdefault"):
                return 0
            if base == "seq" and fn.attr == "sort":
                if isinstance(fn.value, ast.Name):
                    env[fn.value.id] = 0
                return 0
            if base and fn.attr in ("index",):
                self.hit(fn.value, "is indexed")
                return 0
            if base and fn.attr in SETM:
                for a in args:
                    self.ex(a, env, one)
                return base
            if base and fn.attr == "pop" and not args:
                if not self.single(fn.value, one):
                    self.hit(fn.value, "gives one of its elements")
                return 0
            if isinstance(fn.value, ast.Name) and fn.value.id in ("set", "frozenset"):
                for a in args:
                    if isinstance(a, ast.Starred):
                        self.ex(a.value, env, one)
                    else:
                        self.ex(a, env, one)
                return "set"
            if base and fn.attr in SETOK:
                for a in args:
                    self.ex(a, env, one)
                return 0
            if fn.attr in ("join", "extend", "fromkeys", "from_iterable", "array", "asarray", "chain", "DataFrame", "Series", "product", "combinations", "permutations", "zip_longest", "append0", "writelines", "Index", "loc"):
                for a in args:
                    if self.ex(a, env, one) and not self.single(a, one):
                        self.hit(a, f"is turned into a sequence by {fn.attr}")
                return 0
        us = [(a, self.ex(a, env, one)) for a in args]
        u = 0
        cs = self.callee(e)
        if not cs:
            for a, k in us:
                if k in ("seq", "dic") and not self.single(a, one):
                    self.hit(a, "is passed on in arbitrary order")
        for f, bound in cs:
            if isinstance(f, Fn):
                names = [x.arg for x in f.node.args.args]
                if bound:
                    names = names[1:]
                for i, a in enumerate(e.args):
                    if i < len(names) and dict(us).get(a) and not self.single(a, one):
                        self.param(f, names[i], dict(us)[a])
                for k in e.keywords:
                    if k.arg and dict(us).get(k.value) and not self.single(k.value, one):
                        self.param(f, k.arg, dict(us)[k.value])
                u = u or f.ret
            else:
                fs = [x[0] for x in self.p.dc_fields(f)]
                for i, a in enumerate(e.args):
                    if i < len(fs) and dict(us).get(a):
                        self.setfield(f, fs[i])
                for k in e.keywords:
                    if k.arg in fs and dict(us).get(k.value):
                        self.setfield(f, k.arg)
        return u

    def counts(self, e):
        """the summands are whole numbers"""
        return isinstance(e, COMPS) and isinstance(e.elt, ast.Constant) and isinstance(e.elt.value, int)

    def param(self, f, name, kind):
        k = self.worst([f.params.get(name, 0), kind])
        if k != f.params.get(name, 0):
            f.params[name] = k
            self.changed = True

    def setfield(self, c, name):
        k = (c.qual, name)
        if k not in self.fields:
            self.fields.add(k)
            self.changed = True

    def harmless(self, st):
        """a loop body whose effect does not depend on the order: adds to sets, tests, raises"""
        for n in own(st.body):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Yield, ast.Break, ast.Delete)):
                return False
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "discard", "issubset", "issuperset"):
                    continue
                if isinstance(n.func, ast.Name) and n.func.id in INSENS | {"isinstance", "len", "print"}:
                    continue
                if isinstance(n.func, ast.Name) and n.func.id.endswith(("Error", "Exception")):
                    continue
                return False
        return True

    def hit(self, e, what):
        if self.ck is None:
            return
        f = self.f
        self.hits += 1
        self.ck.bad("order", f"{f.label}: {ast.unparse(e)[:80]}", f"an unordered collection {what}", f"{self.p.rel(f.mod.path)}:{e.lineno}")


# ---------------------------------------------------------------- nondeterministic primitives
def is_source(N, f, n):
    if isinstance(n, ast.Call):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
        if nm in HANDED.get(f.mod.name, ()):
            return HANDED[f.mod.name][nm]
        if isinstance(n.func, ast.Name) and n.func.id in SRCB:
            if N._name(f.mod, f.node, n.func.id) is None and n.func.id not in (N.module_names(f.mod) or ()) and n.func.id not in args_of(f.node):
                return n.func.id
        t = N.typ(f.mod, f.node, n.func)
        for a in t or ():
            if a[0] == "e" and a[1] not in NOT_SRC and (a[1].startswith(SRC) or a[1] in SRC):
                return a[1]
    elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
        t = N.typ(f.mod, f.node, n)
        for a in t or ():
            if a[0] == "e" and a[1] in ("os.environ",):
                return a[1]
    return None


def sources(ck, p, N, f):
    body = f.node.body
    nodes = [x for b in body for x in ast.walk(b)]
    parent = {}
    for b in body:
        for x in ast.walk(b):
            for c in ast.iter_child_nodes(x):
                parent[id(c)] = x
    hits = [(n, s) for n in nodes for s in [is_source(N, f, n)] if s]
    if (f.cls.qual if f.cls else f.mod.name, f.node.name) in DECLARED:
        ck.ok("source", f.label, "declared")
        return
    rel = p.rel(f.mod.path)
    if not hits:
        ck.ok("source", f.label)
        return
    tainted = set()
    work = [n for n, _ in hits]
    why = {id(n): s for n, s in hits}
    bad = None
    seen = set()
    while work:
        n = work.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        s = why[id(n)]
        cur = n
        while True:
            par = parent.get(id(cur))
            if par is None:
                break
            if isinstance(par, ast.Call):
                fn = par.func
                nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
                if cur is fn or (isinstance(fn, ast.Attribute) and cur is fn):
                    cur = par
                    continue
                if nm == "print" and isinstance(fn, ast.Name):
                    break
                if s.startswith("time.") and nm in FILEF and (par.args[:1] == [cur] or isinstance(fn, ast.Attribute) and nm == "join"):
                    if nm == "join":
                        cur = par
                        continue
                    break       # the name of an export file
                if nm in ("int", "float", "str", "round", "abs", "format", "repr", "max", "min"):
                    cur = par
                    continue
                bad = bad or (n, f"goes into the call of {ast.unparse(fn)[:60]}", s)
                break
            if isinstance(par, ast.keyword):
                call = parent.get(id(par))
                if par.arg in TIMEKW and s.startswith("time.") and isinstance(call, ast.Call) and elapsed(cur):
                    break
                if isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == "print":
                    break
                cur = par
                continue
            if isinstance(par, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = par.targets if isinstance(par, ast.Assign) else [par.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        for y in nodes:
                            if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load):
                                why[id(y)] = s
                                work.append(y)
                    else:
                        bad = bad or (n, f"is stored in {ast.unparse(t)[:60]}", s)
                break
            if isinstance(par, (ast.If, ast.While, ast.IfExp)) and getattr(par, "test", None) is cur:
                bad = bad or (n, "decides a branch", s)
                break
            if isinstance(par, (ast.Return, ast.Yield)):
                if f.node.name.startswith("_") and not f.node.name.startswith("__"):
                    HANDED.setdefault(f.mod.name, {})[f.node.name] = s      # a helper: followed where it is called
                    break
                bad = bad or (n, "is returned", s)
                break
            if isinstance(par, ast.For):
                bad = bad or (n, "is iterated over", s)
                break
            if isinstance(par, ast.Raise):
                break
            if isinstance(par, ast.stmt):
                break
            cur = par
    if bad:
        ck.bad("source", f"{f.label}: {bad[2]}", f"a value of {bad[2]} {bad[1]}", f"{rel}:{bad[0].lineno}")
    else:
        ck.ok("source", f.label, f"{len(hits)} nondeterministic values stay in texts and elapsed times")


def elapsed(e):
    return isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) or isinstance(e, ast.Name) or isinstance(e, ast.Call)


# ---------------------------------------------------------------- hidden state
def hidden(ck, p, N, f):
    rel = p.rel(f.mod.path)
    ok = True
    for d in f.node.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "")
        if nm in ("lru_cache", "cache", "cached_property", "memoize"):
            a = f.node.args
            n = len(a.args) + len(a.kwonlyargs)
            if f.cls is not None and not any(getattr(y, "id", "") == "staticmethod" for y in f.node.decorator_list):
                ok = False
                if frozen(p, f.cls):
                    ok = True
                    continue
                ck.bad("hidden", f"{f.label}: {nm}", "results of a method of a mutable object are memoised", f"{rel}:{f.node.lineno}")
    g = {x for n in own(f.node.body) if isinstance(n, ast.Global) for x in n.names}
    for n in own(f.node.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in g:
            ok = False
            ck.bad("hidden", f"{f.label}: {n.id}", "a function of the computing modules changes a module variable", f"{rel}:{n.lineno}")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            t = N.typ(f.mod, f.node, n.value)
            v = ast.unparse(n.value)
            if (t and all(a[0] in ("c", "m") for a in t)) or v in ("self.__class__", "type(self)"):
                ok = False
                ck.bad("hidden", f"{f.label}: {ast.unparse(n)}", "a function of the computing modules changes class or module state", f"{rel}:{n.lineno}")
    if ok:
        ck.ok("hidden", f.label)


def memos(ck, p, mr, f):
    """a method that answers with what it stored itself when it was asked before"""
    fn = mr.fns.get(id(f.node))
    if fn is not None:
        for (o, attr), (ln, how) in fn.mods.items():
            if o[0][0] in "GCK" and ": " not in how and not how.startswith("^"):
                ck.bad("hidden", f"{f.label}: {o[0][2] if len(o[0]) > 2 else o[0][1]}", f"{how} of an object of the module or class, shared by all calls", f"{p.rel(f.mod.path)}:{ln}")
    if fn is None or f.cls is None or not fn.pos or f.node.name in ("__init__", "__post_init__", "__new__") or frozen(p, f.cls):
        return
    me = fn.pos[0]
    kept = set()
    for (o, attr), (ln, how) in fn.mods.items():
        if o[0] != ("P", 0) or ": " in how:
            continue
        if attr is None and o[1] and o[1][0] not in ("[]", "*"):
            kept.add(o[1][0])
        elif attr is not None and not o[1]:
            kept.add(attr)
    if not kept:
        return

    alias = {}

    def held(e):
        """the field of self whose stored content the expression is (or None)"""
        while True:
            if isinstance(e, ast.Name):
                return alias.get(e.id)
            if isinstance(e, ast.NamedExpr):
                e = e.value
            elif isinstance(e, ast.Attribute):
                if isinstance(e.value, ast.Name) and e.value.id == me and e.attr in kept:
                    return e.attr
                return None
            elif isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault", "pop", "__getitem__"):
                e = e.func.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("getattr", "vars") and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == me:
                if e.func.id == "vars":
                    return "__dict__" if "__dict__" in kept else None
                a = e.args[1] if len(e.args) > 1 else None
                return a.value if isinstance(a, ast.Constant) and a.value in kept else None
            else:
                return None
    body = list(own(f.node.body))
    for _ in range(3):
        for n in body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and held(n.value):
                alias[n.targets[0].id] = held(n.value)
            elif isinstance(n, ast.NamedExpr) and held(n.value):
                alias[n.target.id] = held(n.value)
    # what is stored is computed from the object (a registry of what it was told is not a memo)
    derived, computed = {me}, set()
    for _ in range(4):
        for n in body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in derived for x in ast.walk(n.value)):
                for t in n.targets:
                    if not (isinstance(n.value, ast.Name) and n.value.id == me):
                        derived |= set(targets(t))
    for n in body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                x = held(t)
                if x and any(isinstance(y, ast.Name) and y.id in derived for y in ast.walk(n.value)) and not held(n.value):
                    computed.add(x)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and held(n):
            if len(n.args) > 1 and any(isinstance(y, ast.Name) and y.id in derived for y in ast.walk(n.args[1])):
                computed.add(held(n))
    asked = {}
    for n in body:
        ts = [n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While)) else n.body if isinstance(n, ast.Try) else []
        for t in ts:
            for x in ast.walk(t):
                if held(x) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                    asked[held(x)] = x.lineno
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and held(n):
            asked.setdefault(held(n), n.lineno)
    for n in body:
        if isinstance(n, ast.Return) and n.value is not None:
            parts = [n.value.body, n.value.orelse] if isinstance(n.value, ast.IfExp) else [n.value]
            for v in parts:
                x = held(v)
                if x and x in asked and x in computed:
                    return ck.bad("hidden", f"{f.label}: {x}", f"answers with what it stored in self.{x} when it was asked before, although the object can have changed since", f"{p.rel(f.mod.path)}:{n.lineno}")


def frozen(p, c):
    for d in c.node.decorator_list:
        if isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
            return True
    return False


if __name__ == "__main__":
    run(main)
