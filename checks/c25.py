"""Secrets stay inside requests; the outside world is touched only where declared.

(1) every call of the program that reaches the network, a process, dynamic code, a file or the environment is
    found by resolving its target, and compared with the kinds declared for its module;
(2) values of keys and access tokens are followed through assignments, containers, texts, calls, returns and
    fields; they must not reach printed output, logs, errors, files or texts of objects."""
import ast
import re
from vf.checklib import Check, run
from vf.project import Project
from vf.names import Names, own, FN, COMPS, targets, args_of, BUILTINS

RULES = {
    "outside": "network, process, dynamic-code, file and environment access happens only in modules that declare that kind",
    "reach": "no trading, pricing, routing or curve function reaches such an access through the functions it calls",
    "secret": "no key or access token flows into printed output, a log, an error, a file name, a file or the text of an object",
    "query": "a request that carries a key in its address or query never lets the library's own error text, which repeats the address, escape",
}
# ---- (1) kinds of outside access
EXT = [
    ("network", r"^(requests|urllib|http|socket|aiohttp|httpx|ftplib|smtplib|websocket|websockets|web3|ssl|asyncio\.open_connection)(\.|$)"),
    ("process", r"^(subprocess|multiprocessing|pty|signal)(\.|$)|^os\.(system|popen|exec\w*|spawn\w*|fork\w*|kill|killpg|startfile)$"),
    ("code", r"^(importlib|imp|runpy|code|codeop|ctypes|cffi)(\.|$)"),
    ("file", r"^os\.(remove|unlink|rename|replace|mkdir|makedirs|rmdir|removedirs|listdir|scandir|walk|open|chmod|chown|link|symlink|truncate|chdir|utime)$|^(shutil|tempfile|glob|zipfile|tarfile|gzip|bz2|lzma|sqlite3|shelve|dbm|fileinput|io)\.\w*(open|File|copy|move|rmtree|make|temp|Temp|glob|connect)\w*$"
             r"|^pathlib\.|^pickle\.(load|dump)$|^json\.(load|dump)$|^marshal\.|^pandas\.read_\w+$|^numpy\.(load|save|savez|savetxt|loadtxt|genfromtxt|fromfile|memmap|savez_compressed)$|^matplotlib\.pyplot\.savefig$|^codecs\.open$|^joblib\."),
    ("environment", r"^os\.(environ|getenv|putenv|setenv|unsetenv)(\.|$)"),
]
BUILTIN = {"open": "file", "eval": "code", "exec": "code", "compile": "code", "__import__": "code", "input": "console"}
METHOD = {"to_csv": "file", "to_pickle": "file", "to_excel": "file", "to_parquet": "file", "to_hdf": "file", "to_feather": "file", "to_sql": "file", "savefig": "file", "write_text": "file", "write_bytes": "file",
          "read_text": "file", "read_bytes": "file", "tofile": "file", "unlink": "file", "rmtree": "file"}
PURE = {"os.path", "urllib.parse", "io.StringIO", "io.BytesIO"}
# ---- what each module declares (data import, client, plotting and export helpers)
DECLARED = {
    "carbon.helpers.cryptocompare": {"network", "file", "environment"},      # data import
    "carbon.helpers.fls": {"file"}, "carbon.helpers.helpers": {"file"}, "carbon.helpers.pdread": {"file"},
    "carbon.helpers.simulation": {"file"},                                   # start conditions
    "carbon.helpers.widgets": set(), "carbon.sdk.sdkbase": {"network"},
    "util": {"file"}, "run_benchmark": {"file", "code"},
}
# functions of other modules that are themselves an export/import helper
DECLFN = {
    ("carbon.tools.optimizer", "pickle"): {"file"}, ("carbon.tools.optimizer", "unpickle"): {"file"},
    ("carbon.routers.base_router", "from_json"): {"file"}, ("carbon.routers.base_router", "from_csv"): {"file"},
    ("carbon.routers.base_router", "make_orders_from_file"): {"file"},
}
CORE = ("carbon.order", "carbon.pair", "carbon.carbon_order_ui", "carbon.routers", "carbon.simulators", "carbon.tools", "core")
# ---- (2) secrets
SECRET = re.compile(r"^_*(api_?key|access_?key|priv(ate)?_?key|secret(_?key)?|passw(or)?d|passphrase|mnemonic|seed_?phrase|auth_?token|api_?token|access_?token|bearer)_*$", re.I)
TOKENCLS = "carbon.sdk.sdkbase.SDKBase"      # .token / .TOKEN of the client is its access token
CLEAN = {"len", "type", "isinstance", "bool", "id", "hash", "callable", "hasattr", "any", "all"}
OUT = {"print", "pprint", "display", "input"}
LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}
FILEM = {"write", "writelines", "dump", "to_csv", "to_pickle", "to_json", "savefig", "write_text", "dumps0"}


def main():
    ck = Check("C25", "Secrets and the outside world are touched only where declared", RULES, floor=700, assumptions=[
        "third-party libraries reach outside only through the entry points listed", "a hash of a key is not the key"])
    p = Project()
    N = Names(p)
    fns = [(n, m) for m in p.mods.values() if "alpha_router_orig" not in m.name for n in ast.walk(m.tree) if isinstance(n, FN)]
    label = lambda n, m: ((N.owner[id(n)].qual if id(n) in N.owner else m.name) + "." + n.name)
    outer = {}
    for n, m in fns:
        for x in ast.walk(n):
            if isinstance(x, FN) and x is not n:
                outer.setdefault(id(x), n)
    direct, calls, declared = {}, {}, {}
    for n, m in fns:
        ck.functions.add(label(n, m))
        hits = access(p, N, m, n)
        decl = set(DECLARED.get(m.name, ()))
        o = n
        while o is not None:
            decl |= DECLFN.get((m.name, o.name), set())
            o = outer.get(id(o))
        declared[id(n)] = decl
        direct[id(n)] = hits
        cs = set()
        for x in own(n.body):
            if isinstance(x, ast.Call):
                for a in N.typ(m, n, x.func) or ():
                    if a[0] == "f":
                        cs.add(id(a[1]))
                    elif a[0] == "c":
                        for mn in ("__init__", "__post_init__"):
                            k = p.find_member(p.classes[a[1]], mn)
                            if k and k[1][0] == "func":
                                cs.add(id(k[1][1]))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                for a in N.typ(m, n, x.value) or ():
                    if a[0] in ("i", "x"):
                        for mem in N.members(p.classes[a[1]], x.attr, a[0] == "x") or []:
                            if mem[1] == "prop":
                                cs.add(id(mem[2]))
            if isinstance(x, FN):
                cs.add(id(x))
        calls[id(n)] = cs
    callers = {}
    for i, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(i)

    def allowed(i, k, seen=()):
        # declared itself, or a helper that only declared functions call
        if k in declared[i]:
            return True
        up = callers.get(i, set()) - {i}
        return bool(up) and i not in seen and all(allowed(u, k, seen + (i,)) for u in up)
    for n, m in fns:
        hits = direct[id(n)]
        bad = [(k, w, x) for k, w, x in hits if not allowed(id(n), k)]
        for k, w, x in bad:
            ck.bad("outside", f"{label(n, m)}: {w}", f"{k} access in a place that declares none", f"{p.rel(m.path)}:{x.lineno}")
        if not bad:
            ck.ok("outside", label(n, m), ", ".join(w for _, w, _ in hits))
    for m in p.mods.values():
        if "alpha_router_orig" in m.name:
            continue
        hits = access(p, N, m, None)
        bad = [(k, w, x) for k, w, x in hits if k not in DECLARED.get(m.name, ())]
        for k, w, x in bad:
            ck.bad("outside", f"{m.name} (module body): {w}", f"{k} access in a place that declares none", f"{p.rel(m.path)}:{x.lineno}")
        if not bad:
            ck.ok("outside", f"{m.name} (module body)")
    # reachability from the computing modules
    byid = {id(n): (n, m) for n, m in fns}
    mem = {}

    def reach(i, seen):
        if i in mem:
            return mem[i]
        if i in seen or i not in byid:
            return None
        seen.add(i)
        n, m = byid[i]
        h = [(k, w) for k, w, x in direct[i] if k != "environment"]
        if h:
            return [label(n, m), h[0][1]]
        for c in sorted(calls[i], key=lambda c: byid[c][0].lineno if c in byid else 0):
            r = reach(c, seen)
            if r:
                return [label(n, m)] + r
        return None
    for n, m in fns:
        if not any(m.name == c or m.name.startswith(c + ".") for c in CORE):
            continue
        if declared[id(n)] or any(allowed(id(n), k) for k, _, _ in direct[id(n)]) or not direct[id(n)] and allowed(id(n), "file"):
            continue        # declared, or a helper of declared functions only
        r = reach(id(n), set())
        mem[id(n)] = r
        ck.decide(not r, "reach", label(n, m), "reaches " + " -> ".join(r or []), f"{p.rel(m.path)}:{n.lineno}")
    # secrets
    T = Taint(p, N, fns, label)
    T.solve()
    for n, m in fns:
        T.report(ck, n, m)
    for c in p.classes.values():
        if c.dataclass and any(SECRET.match(f[0]) for f in c.fields):
            txt = [d for d in c.node.decorator_list if isinstance(d, ast.Call) and any(k.arg == "repr" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)]
            for f in c.fields:
                if SECRET.match(f[0]):
                    hid = txt or (isinstance(f[2], ast.Call) and any(k.arg == "repr" and isinstance(k.value, ast.Constant) and k.value.value is False for k in f[2].keywords)) or "__repr__" in c.members
                    ck.decide(bool(hid), "secret", f"{c.qual}.{f[0]}", "the generated text of the class contains the secret", f"{p.rel(c.mod.path)}:{c.node.lineno}")
    return ck.finish()


def ext_kind(d):
    if any(d == x or d.startswith(x + ".") for x in PURE):
        return None
    for k, r in EXT:
        if re.search(r, d):
            return k
    return None


def access(p, N, m, fn):
    out = []
    for x in own(fn.body if fn is not None else m.tree.body):
        y = x
        stack = [x]
        if isinstance(x, COMPS + (ast.Lambda,)):
            stack = [z for z in ast.walk(x)]
        for y in stack:
            if isinstance(y, ast.Call):
                if isinstance(y.func, ast.Name) and y.func.id in BUILTIN and y.func.id not in (N.module_names(m) or ()) and (fn is None or y.func.id not in N.env(fn)):
                    out.append((BUILTIN[y.func.id], y.func.id, y))
                    continue
                if isinstance(y.func, ast.Attribute) and y.func.attr in METHOD:
                    t = N.typ(m, fn, y.func.value)
                    if not (t and all(a[0] in ("i", "x", "c", "b", "t", "m") for a in t)):
                        if y.args or y.keywords or y.func.attr in ("unlink", "read_text", "read_bytes", "rmtree"):
                            out.append((METHOD[y.func.attr], "." + y.func.attr, y))
                            continue
            if isinstance(y, (ast.Attribute, ast.Name)) and isinstance(y.ctx, ast.Load):
                t = N.typ(m, fn, y)
                for a in t or ():
                    if a[0] == "e":
                        k = ext_kind(a[1])
                        if k and ("." in a[1] or k == "code"):
                            out.append((k, a[1], y))
    seen, res = set(), []
    for k, w, y in out:
        if (k, w, y.lineno) not in seen:
            seen.add((k, w, y.lineno))
            res.append((k, w, y))
    return res


class Taint:
    def __init__(self, p, N, fns, label):
        self.p, self.N, self.fns, self.label = p, N, fns, label
        self.fields = set()      # tainted attribute names (class qual, name)
        self.params = {}         # id(fn) -> tainted parameters
        self.rets = set()        # functions whose result is tainted
        self.byid = {id(n): (n, m) for n, m in fns}
        self.tok = p.classes.get(TOKENCLS)

    def solve(self):
        self.ck = None
        for _ in range(6):
            self.changed = False
            for n, m in self.fns:
                self.flow(n, m)
            if not self.changed:
                break

    def report(self, ck, n, m):
        self.ck, self.hits, self.seen = ck, 0, 0
        self.flow(n, m)
        if not self.hits:
            ck.ok("secret", self.label(n, m), f"{self.seen} tainted reads")
        self.ck = None

    def flow(self, n, m):
        self.n, self.m = n, m
        c = self.N.owner.get(id(n))
        env = {}
        for x in args_of(n):
            env[x] = bool(SECRET.match(x)) or x in self.params.get(id(n), ()) or (x == "token" and c is not None and self.tok is not None and c in [self.tok] and n.name == "__init__")
        self.exc = []
        self.trys = []
        self.block(n.body, env)

    def hit(self, rule, e, what):
        if self.ck is None:
            return
        self.hits += 1
        self.ck.bad(rule, f"{self.label(self.n, self.m)}: {ast.unparse(e)[:80]}", what, f"{self.p.rel(self.m.path)}:{e.lineno}")

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            t = self.ex(s.value, env)
            for x in s.targets:
                self.bind(x, t, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ex(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            t = self.ex(s.value, env)
            self.bind(s.target, t or self.ex(s.target, env), env)
        elif isinstance(s, ast.Return):
            t = self.ex(s.value, env)
            if t:
                if self.n.name in ("__repr__", "__str__", "__format__", "_repr_html_"):
                    self.hit("secret", s.value, "the text of an object contains a secret")
                elif id(self.n) not in self.rets:
                    self.rets.add(id(self.n))
                    self.changed = True
        elif isinstance(s, ast.Raise):
            if s.exc is not None and self.ex(s.exc, env):
                self.hit("secret", s.exc, "an error carries a secret")
        elif isinstance(s, ast.Assert):
            self.ex(s.test, env)
            if s.msg is not None and self.ex(s.msg, env):
                self.hit("secret", s.msg, "an error carries a secret")
        elif isinstance(s, ast.If) or isinstance(s, ast.While):
            self.ex(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            if isinstance(s, ast.While):
                self.block(s.body, a)
            self.block(s.orelse, b)
            for k in set(a) | set(b):
                env[k] = a.get(k, False) or b.get(k, False)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            t = self.ex(s.iter, env)
            self.bind(s.target, t, env)
            for _ in (0, 1):
                a = dict(env)
                self.block(s.body, a)
                for k in a:
                    env[k] = env.get(k, False) or a[k]
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            self.trys.append(s)
            self.block(s.body, env)
            self.trys.pop()
            for h in s.handlers:
                self.block(h.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                t = self.ex(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, t, env)
            self.block(s.body, env)
        elif isinstance(s, FN):
            n = self.n
            self.block(s.body, {**env, **{x: bool(SECRET.match(x)) for x in args_of(s)}})
        elif isinstance(s, ast.Expr):
            self.ex(s.value, env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, v, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)
        elif isinstance(t, ast.Subscript):
            if v:
                b = t.value
                while isinstance(b, (ast.Subscript, ast.Attribute)) and not (isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name)):
                    b = b.value
                if isinstance(b, ast.Name):
                    env[b.id] = True
                elif isinstance(b, ast.Attribute):
                    self.setf(b)
        elif isinstance(t, ast.Attribute) and v:
            self.setf(t)

    def setf(self, t):
        for a in self.N.typ(self.m, self.n, t.value) or ():
            if a[0] in ("i", "x", "c") and (a[1], t.attr) not in self.fields:
                self.fields.add((a[1], t.attr))
                self.changed = True

    def attr(self, e):
        if SECRET.match(e.attr) and not (e.attr.isupper() and e.attr.endswith("NAME")):
            return True
        for a in self.N.typ(self.m, self.n, e.value) or ():
            if a[0] in ("i", "x", "c"):
                c = self.p.classes[a[1]]
                mro = set(self.p.mro(c)) | set(self.N.subs.get(c.qual, []))
                if any((k.qual, e.attr) in self.fields for k in mro):
                    return True
                if self.tok is not None and e.attr in ("token", "TOKEN") and (self.tok in self.p.mro(c)):
                    return True
                for mem in self.N.members(c, e.attr, a[0] == "x") or []:
                    if mem[1] == "prop" and id(mem[2]) in self.rets:
                        return True
        return False

    def ex(self, e, env):
        if e is None or isinstance(e, (ast.Constant,)):
            return False
        if isinstance(e, ast.Name):
            t = env.get(e.id, False)
            if t and self.ck is not None:
                self.seen += 1
            return t
        if isinstance(e, ast.Attribute):
            b = self.ex(e.value, env)
            t = self.attr(e)
            if t and self.ck is not None:
                self.seen += 1
            return t
        if isinstance(e, ast.Compare):
            for c in [e.left] + e.comparators:
                self.ex(c, env)
            return False
        if isinstance(e, ast.IfExp):
            self.ex(e.test, env)
            a, b = self.ex(e.body, env), self.ex(e.orelse, env)
            return a or b
        if isinstance(e, COMPS):
            e2 = dict(env)
            t = False
            for g in e.generators:
                v = self.ex(g.iter, e2)
                self.bind(g.target, v, e2)
                for i in g.ifs:
                    self.ex(i, e2)
            if isinstance(e, ast.DictComp):
                a, b = self.ex(e.key, e2), self.ex(e.value, e2)
                return a or b
            return self.ex(e.elt, e2)
        if isinstance(e, ast.Lambda):
            return self.ex(e.body, {**env, **{x: False for x in args_of(e)}})
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value, env)
            env[e.target.id] = v
            return v
        r = False
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r = self.ex(c, env) or r
            elif isinstance(c, ast.FormattedValue):
                r = self.ex(c.value, env) or r
        return r

    def call(self, e, env):
        fn = e.func
        ts = [(a, self.ex(a.value if isinstance(a, ast.Starred) else a, env)) for a in e.args]
        ks = [(k.arg, self.ex(k.value, env)) for k in e.keywords]
        anyt = any(t for _, t in ts) or any(t for _, t in ks)
        base = self.ex(fn.value, env) if isinstance(fn, ast.Attribute) else False
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if isinstance(fn, ast.Name) and nm in CLEAN:
            return False
        typ = self.N.typ(self.m, self.n, fn) or ()
        ext = [a[1] for a in typ if a[0] == "e"]
        if any(x in ("os.getenv", "os.environ.get") for x in ext):
            return True
        if any(x.startswith(("hashlib.", "hmac.")) for x in ext) or nm in ("hexdigest", "digest"):
            return False
        if anyt and isinstance(fn, ast.Name) and nm in OUT:
            self.hit("secret", e, "a secret is printed")
            return False
        if anyt and (any(x.startswith(("logging.", "warnings.")) for x in ext) or (nm in LOGM and isinstance(fn, ast.Attribute) and re.search(r"log|warn", ast.unparse(fn.value), re.I))):
            self.hit("secret", e, "a secret is logged")
            return False
        if anyt and ((isinstance(fn, ast.Name) and nm == "open") or nm in FILEM or any(ext_kind(x) == "file" for x in ext)):
            self.hit("secret", e, "a secret is written to a file")
            return False
        if any(x.startswith(("requests.", "urllib.request.")) for x in ext):
            q = (ts[0][1] if ts else False) or any(t for k, t in ks if k in ("params", "url")) or any(t for _, t in ts[1:2])
            if q:
                self.query(e)
            return False
        res = anyt or base
        for a in typ:
            if a[0] == "f" and id(a[1]) in self.byid:
                names = [x.arg for x in a[1].args.args][1 if a[2] else 0:]
                pr = self.params.setdefault(id(a[1]), set())
                for i, (x, t) in enumerate(ts):
                    if t and i < len(names) and names[i] not in pr:
                        pr.add(names[i])
                        self.changed = True
                for k, t in ks:
                    if t and k and k not in pr:
                        pr.add(k)
                        self.changed = True
                res = id(a[1]) in self.rets
            elif a[0] == "c":
                c = self.p.classes[a[1]]
                k = self.p.find_member(c, "__init__")
                if k and k[1][0] == "func":
                    names = [x.arg for x in k[1][1].args.args][1:]
                    pr = self.params.setdefault(id(k[1][1]), set())
                    for i, (x, t) in enumerate(ts):
                        if t and i < len(names) and names[i] not in pr:
                            pr.add(names[i])
                            self.changed = True
                    for kk, t in ks:
                        if t and kk and kk not in pr:
                            pr.add(kk)
                            self.changed = True
                    res = False
        if base and nm in ("append", "add", "update", "extend", "setdefault", "insert"):
            return True
        if anyt and nm in ("append", "add", "update", "extend", "insert", "setdefault") and isinstance(fn, ast.Attribute):
            b = fn.value
            if isinstance(b, ast.Name):
                env[b.id] = True
        return res

    def query(self, e):
        """a request with a secret in its address: every library error is replaced"""
        if self.ck is None:
            return
        good = False
        for t in self.trys:
            for h in t.handlers:
                ty = ast.unparse(h.type) if h.type is not None else ""
                if h.type is None or re.search(r"\b(Exception|BaseException|RequestException)$", ty) or isinstance(h.type, ast.Tuple):
                    leak = False
                    for x in ast.walk(ast.Module(h.body, [])):
                        if isinstance(x, ast.Raise) and (x.exc is None or not (isinstance(x.cause, ast.Constant) and x.cause.value is None)):
                            leak = True
                    if h.name:
                        okn = {id(c.args[0]) for c in ast.walk(ast.Module(h.body, [])) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("type", "isinstance") and c.args}
                        for x in ast.walk(ast.Module(h.body, [])):
                            if isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) and id(x) not in okn:
                                leak = True
                    good = good or not leak
        if good:
            self.ck.ok("query", f"{self.label(self.n, self.m)}: {ast.unparse(e.func)}")
        else:
            self.hit("query", e, "an error of the library repeats the address with the key")


if __name__ == "__main__":
    run(main)
