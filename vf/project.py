"""Loads the source tree of the analysed project and resolves names, classes and MROs."""
import ast
import warnings
import os

REPO = os.environ.get("VF_REPO", "/repo")


class Mod:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.defs = {}        # name -> list of (kind, payload)   last wins
        self.stars = []       # modules star-imported


class Cls:
    def __init__(self, name, qual, mod, node, outer=None):
        self.name, self.qual, self.mod, self.node, self.outer = name, qual, mod, node, outer
        self.members = {}     # name -> (kind, node)  kind: func, prop, static, clsm, assign, ann, class, alias
        self.setters = {}
        self.fields = []      # dataclass fields in order: (name, annotation, default-node or None)
        self.dataclass = False
        self.slots = set()
        self.funcs = []       # every FunctionDef in body (also shadowed duplicates)

    def __repr__(self):
        return f"<Cls {self.qual}>"


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return "?"


SKIP_DIRS = {"tests", "nbtest", "__pycache__"}


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.classes = {}
        self.errors = []
        self._load("carbon", os.path.join(self.repo, "carbon"))
        b = os.path.join(self.repo, "benchmark")
        if os.path.isdir(b):
            self._load("", b, root=True)
        for f in ("CarbonCurves.py",):
            p = os.path.join(self.repo, f)
            if os.path.exists(p):
                self._load_file(f[:-3], p, "")
        for m in list(self.mods.values()):
            self._scan(m)

    # ------------------------------------------------------------------ loading
    def _load(self, pkg, d, root=False):
        for base, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith("."))
            rel = os.path.relpath(base, d)
            parts = [] if rel == "." else rel.split(os.sep)
            for f in sorted(files):
                if not f.endswith(".py") or f.startswith("test_"):
                    continue
                p = os.path.join(base, f)
                n = ([pkg] if pkg else []) + parts
                if f != "__init__.py":
                    n = n + [f[:-3]]
                    pk = ".".join(n[:-1])
                else:
                    pk = ".".join(n)
                name = ".".join(n)
                if root and not name:
                    continue
                self._load_file(name if not root else name, p, pk)

    def _load_file(self, name, p, pkg):
        try:
            with open(p, encoding="utf-8") as fh:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(fh.read(), p)
        except SyntaxError as e:
            self.errors.append(f"{p}: {e}")
            return
        self.mods[name] = Mod(name, p, tree, pkg)

    def rel(self, path):
        return os.path.relpath(path, self.repo)

    # ------------------------------------------------------------------ scanning
    def _scan(self, m):
        self._scan_body(m, m.tree.body)

    def _resolve_from(self, m, node):
        if node.level == 0:
            return node.module or ""
        parts = m.pkg.split(".") if m.pkg else []
        up = node.level - 1
        if up:
            parts = parts[:-up]
        if node.module:
            parts = parts + node.module.split(".")
        return ".".join(parts)

    def _scan_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                c = self._mkclass(m, n, None)
                m.defs[n.name] = ("class", c.qual)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.defs[a.asname] = ("mod", a.name)
                    else:
                        m.defs[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                src = self._resolve_from(m, n)
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.defs[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ("assign", n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.defs[e.id] = ("unpack", n.value, i)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    m.defs[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._scan_body(m, h.body)
                self._scan_body(m, n.body)
                self._scan_body(m, n.orelse)
                self._scan_body(m, n.finalbody)
            elif isinstance(n, (ast.If,)):
                self._scan_body(m, n.orelse)
                self._scan_body(m, n.body)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    m.defs[n.target.id] = ("assign", n.iter)
                self._scan_body(m, n.body)

    def _mkclass(self, m, n, outer):
        qual = (outer.qual + "." if outer else m.name + ".") + n.name
        c = Cls(n.name, qual, m, n, outer)
        old = self.classes.get(qual)
        if old is not None:        # a class redefined under its own name
            old.qual = qual + "#0"
            self.classes[old.qual] = old
        c.prev = old
        self.classes[qual] = c
        dcs = {a.asname for x in m.tree.body if isinstance(x, ast.ImportFrom) and x.module == "dataclasses" for a in x.names if a.name == "dataclass" and a.asname}
        for d in n.decorator_list:
            if isinstance(d, ast.Name) and d.id not in ("dataclass",) and d.id not in dcs:
                # @name with  name = dataclass(...)
                vs = [x.value for x in ast.walk(m.tree) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d.id for t in x.targets)]
                d = vs[-1] if vs else d
            if deco_name(d) == "dataclass" or deco_name(d) in dcs:
                c.dataclass = True
        for s in n.body:
            self._scan_member(m, c, s)
        return c

    def _scan_member(self, m, c, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kind = "func"
            c.funcs.append(s)
            for d in s.decorator_list:
                dn = deco_name(d)
                if dn in ("property", "cached_property"):
                    kind = "prop"
                elif dn == "staticmethod":
                    kind = "static"
                elif dn == "classmethod":
                    kind = "clsm"
                elif dn == "setter":
                    kind = "setter"
                elif dn in ("deleter", "getter"):
                    kind = "skip"
            if kind == "setter":
                c.setters[s.name] = s
            elif kind != "skip":
                c.members[s.name] = (kind, s)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if isinstance(s.value, ast.Name) and s.value.id == t.id and t.id in c.members:
                        continue
                    c.members[t.id] = ("assign", s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            c.fields = [f for f in c.fields if f[0] != s.target.id] + [(s.target.id, s.annotation, s.value)]
            if s.value is not None:
                c.members[s.target.id] = ("assign", s.value)
        elif isinstance(s, ast.ClassDef):
            k = self._mkclass(m, s, c)
            c.members[s.name] = ("class", k.qual)
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._scan_member(m, c, b)

    # ------------------------------------------------------------------ resolution
    def lookup(self, modname, name, _seen=None):
        """resolve a module-level name to ('func', mod, node) ('class', qual) ('mod', name)
        ('ext', dotted) ('assign', mod, expr) ('unpack', mod, expr, i) or None"""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.mods.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        d = m.defs.get(name)
        if d is None:
            sub = f"{modname}.{name}"
            for s in reversed(m.stars):
                if s in self.mods:
                    r = self.lookup(s, name, _seen)
                    if r is not None:
                        return r
            if sub in self.mods:
                return ("mod", sub)
            return None
        if d[0] == "func":
            return ("func", modname, d[1])
        if d[0] == "class":
            return ("class", d[1])
        if d[0] == "mod":
            if d[1] in self.mods:
                return ("mod", d[1])
            return ("ext", d[1])
        if d[0] == "from":
            src, nm = d[1], d[2]
            if src in self.mods:
                r = self.lookup(src, nm, _seen)
                if r is not None:
                    return r
                if f"{src}.{nm}" in self.mods:
                    return ("mod", f"{src}.{nm}")
                return ("missing", src, nm)
            if f"{src}.{nm}" in self.mods:
                return ("mod", f"{src}.{nm}")
            return ("ext", f"{src}.{nm}")
        if d[0] == "assign":
            return ("assign", modname, d[1])
        if d[0] == "unpack":
            return ("unpack", modname, d[1], d[2])

    def resolve_expr(self, modname, e):
        """resolve Name/Attribute chain statically"""
        if isinstance(e, ast.Name):
            return self.lookup(modname, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(modname, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.lookup(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                c = self.classes[b[1]]
                k = self.find_member(c, e.attr)
                if k and k[1][0] == "class":
                    return ("class", k[1][1])
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.mod.name, b)
            if r is None and isinstance(b, ast.Name) and c.outer is not None:
                k = self.find_member(c.outer, b.id)
                if k and k[1][0] == "class":
                    r = ("class", k[1][1])
            if r and r[0] == "assign":
                # alias such as P = CarbonPair
                rr = self.resolve_expr(r[1], r[2])
                if rr and rr[0] == "class":
                    r = rr
            if r and r[0] == "class" and r[1] == c.qual and getattr(c, "prev", None) is not None:
                out.append(c.prev)
            elif r and r[0] == "class" and r[1] != c.qual:
                out.append(self.classes[r[1]])
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.node.bases:
                r = self.resolve_expr(k.mod.name, b)
                if r is None:
                    out.append(ast.unparse(b))
                elif r[0] == "ext":
                    out.append(r[1])
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def find_member(self, c, name):
        for k in self.mro(c):
            if name in k.members:
                return k, k.members[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k, k.setters[name]
            if name in k.members:
                return None
        return None

    def dc_fields(self, c):
        """dataclass fields in constructor order"""
        order, d = [], {}
        for k in reversed(self.mro(c)):
            if not k.dataclass:
                continue
            for (n, ann, dflt) in k.fields:
                a = ast.unparse(ann)
                if a.startswith("ClassVar"):
                    continue
                if n not in d:
                    order.append(n)
                d[n] = (n, ann, dflt, k, "InitVar" in a)
        return [d[n] for n in order]

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def by_name(self, name):
        """class by bare name, unique"""
        r = [c for c in self.classes.values() if c.name == name and "alpha_router_orig" not in c.qual]
        return r
