"""No operation fails on a name, attribute, parameter or variable that is not there."""
import ast
from vf.checklib import Check, run
from vf.project import Project
from vf import names as NM
from vf.names import Names, own, bound_in, args_of, FN, COMPS, BUILTINS, targets
from vf import assigned

RULES = {
    "import": "a name imported from a module of the project exists there",
    "name": "every name read is bound in its scope, an enclosing scope, its module or the builtins",
    "attribute": "an attribute read from an object of known class is defined or set by that class",
    "call": "a call of a project function or class fits its parameters",
    "unpack": "a tuple of known length is unpacked into as many targets",
    "unset": "no path reads a local variable before it is assigned",
}


def scopes(m):
    """(chain of binding sets, body nodes, label) of every scope of a module"""
    out = []

    def go(node, chain, label, cls_level):
        # chain: visible binding sets, innermost first
        for n in own(node):
            yield_names(n, chain, label)
            if isinstance(n, FN + (ast.Lambda,)):
                b = set(args_of(n))
                body = n.body if isinstance(n.body, list) else [n.body]
                x, g = bound_in(body)
                b |= x
                base = [c for c in chain if not isinstance(c, tuple)]
                lab = label + "." + getattr(n, "name", "<lambda>")
                go(body, [b] + base, lab, False)
            elif isinstance(n, ast.ClassDef):
                b, g = bound_in(n.body)
                base = [c for c in chain if not isinstance(c, tuple)]
                go(n.body, [("cls", b)] + base, label + "." + n.name, True)
            elif isinstance(n, COMPS):
                b = set()
                for gen in n.generators:
                    b |= set(targets(gen.target))
                body = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                for i, gen in enumerate(n.generators):
                    body += gen.ifs + ([gen.iter] if i else [])
                base = [c for c in chain if not isinstance(c, tuple)]
                go(body, [b] + base, label, False)

    def yield_names(n, chain, label):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append((n, chain, label))

    go(m.tree.body, [], m.name, False)
    return out


def annotations(m):
    s = set()
    for n in ast.walk(m.tree):
        for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if a is not None:
                s |= {id(x) for x in ast.walk(a)}
    return s


def guarded(m):
    """nodes inside a try that catches the failure of a name or attribute, or under an except ImportError"""
    s = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Try):
            ks = set()
            for h in n.handlers:
                t = h.type
                for e in ([t] if not isinstance(t, ast.Tuple) else t.elts):
                    ks.add("Exception" if e is None else ast.unparse(e).split(".")[-1])
            for b in n.body:
                for x in ast.walk(b):
                    s.setdefault(id(x), set()).update(ks)
    return s


def main():
    ck = Check("C27", "No operation fails for reasons internal to the code", RULES, floor=6000, assumptions=[
        "names supplied by the notebook environment (get_ipython) exist", "attributes set from outside a class on objects of unknown type exist on every object",
        "a loop body runs at least once where a later read depends on it (left undecided otherwise)"])
    p = Project()
    N = Names(p)
    for e in p.errors:
        ck.bad("name", "syntax", e)
    for m in p.mods.values():
        if "alpha_router_orig" in m.name:
            continue
        rel = p.rel(m.path)
        ck.count("modules")
        gd = guarded(m)
        anns = annotations(m)

        flows = {}
        infn = {}
        for n in ast.walk(m.tree):
            if isinstance(n, FN):
                f = flows[id(n)] = assigned.analyse(n)
                for b in n.body:
                    for x in ast.walk(b):
                        infn[id(x)] = f

        def dead(n):
            """an expression of a function no path reaches"""
            f = infn.get(id(n))
            return f is not None and isinstance(n, ast.Name) and not f.over and id(n) not in f.seen and id(n) in f.own

        def caught(n, *ks):
            return bool(gd.get(id(n), set()) & set(ks)) or dead(n)
        # imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = p._resolve_from(m, n)
                if src in p.mods:
                    mn = N.module_names(p.mods[src])
                    for a in n.names:
                        if a.name == "*" or mn is None:
                            continue
                        good = a.name in mn or f"{src}.{a.name}" in p.mods
                        ck.decide(good or (None if caught(n, "ImportError", "ModuleNotFoundError") else False), "import", f"{rel}: from {src} import {a.name}", "no such name in that module", f"{rel}:{n.lineno}")
                elif src.split(".")[0] == "carbon":
                    ck.decide(None if caught(n, "ImportError", "ModuleNotFoundError") else False, "import", f"{rel}: from {src}", "no such module", f"{rel}:{n.lineno}")
        # names
        mn = N.module_names(m)
        for n, chain, label in scopes(m):
            if mn is None:
                ck.count("names_open")
                continue
            if id(n) in anns:
                continue
            good = any(n.id in (c[1] if isinstance(c, tuple) else c) for c in chain) or n.id in mn or n.id in BUILTINS
            if good:
                ck.ok("name", f"{label}: {n.id}")
            else:
                ck.decide(None if caught(n, "NameError") else False, "name", f"{label}: {n.id}", "no binding of this name is in scope", f"{rel}:{n.lineno}")
        # attributes, calls, unpacking; per function (and module body)
        ctxs = [(None, m.tree.body, m.name)]
        for n in ast.walk(m.tree):
            if isinstance(n, FN):
                c = N.owner.get(id(n))
                ctxs.append((n, n.body, (c.qual if c else m.name) + "." + n.name))
        for fn, body, label in ctxs:
            if fn is None:
                nodes = list(own(body))
            else:
                nodes = list(own(body))
            inner = []
            for x in nodes:
                if isinstance(x, COMPS + (ast.Lambda,)):
                    sub = [y for y in ast.walk(x)]
                    bnd = set()
                    for y in sub:
                        if isinstance(y, ast.comprehension):
                            bnd |= set(targets(y.target))
                        elif isinstance(y, ast.Lambda):
                            bnd |= set(args_of(y))
                    inner += [(y, bnd) for y in sub if y is not x]
                elif isinstance(x, ast.ClassDef):
                    inner += []
            seen = set()
            under = {id(y) for y, _ in inner}
            for x, bnd in [(x, set()) for x in nodes if id(x) not in under] + inner:
                if id(x) in seen:
                    continue
                seen.add(id(x))
                if bnd and any(isinstance(y, ast.Name) and y.id in bnd for y in ast.walk(x)) and isinstance(x, (ast.Attribute, ast.Call)):
                    # the object itself must not come from a comprehension variable
                    root = x.func if isinstance(x, ast.Call) else x.value
                    if any(isinstance(y, ast.Name) and y.id in bnd for y in ast.walk(root)):
                        continue
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and id(x) not in anns:
                    t = N.typ(m, fn, x.value)
                    if t is None:
                        ck.count("attributes_of_unknown_type")
                        continue
                    t = [a for a in t if a[0] not in ("n", "?")] + [a for a in t if a[0] == "?"] or list(t)
                    if t[0][0] == "?" or (t[-1][0] == "?" and not any(a[0] in ("i", "x", "c") for a in t)):
                        ck.count("attributes_of_unknown_type")
                        continue
                    if all(N.lacks(a, x.attr) for a in t):
                        ck.decide(None if caught(x, "AttributeError") or guarded_has(fn, x) else False, "attribute", f"{label}: {ast.unparse(x)}", f"no attribute {x.attr} on {show(t)}", f"{rel}:{x.lineno}")
                    else:
                        ck.ok("attribute", f"{label}: {ast.unparse(x)[:80]}")
                elif isinstance(x, ast.Call):
                    t = N.typ(m, fn, x.func)
                    if t is None:
                        if isinstance(x.func, ast.Name) and x.func.id == "super":
                            continue
                        ck.count("calls_of_unknown_target")
                        continue
                    rs = [N.misfit(a, x) for a in t if a[0] != "?"]
                    if not rs:
                        ck.count("calls_of_unknown_target")
                        continue
                    if len(rs) < len(t) and all(rs):
                        ck.undecided("call", f"{label}: {ast.unparse(x.func)}(...)", rs[0])
                        continue
                    if all(r for r in rs):
                        ck.decide(None if caught(x, "TypeError") else False, "call", f"{label}: {ast.unparse(x.func)}(...)", rs[0], f"{rel}:{x.lineno}")
                    elif any(a[0] in ("f", "c", "x") for a in t):
                        ck.ok("call", f"{label}: {ast.unparse(x.func)[:80]}")
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)):
                    want = x.targets[0].elts
                    t = N.typ(m, fn, x.value)
                    if t is None or not all(a[0] in ("t", "?") for a in t):
                        continue
                    st = any(isinstance(e, ast.Starred) for e in want)
                    tt = t
                    t = [a for a in t if a[0] == "t"]
                    bad = [a for a in t if (a[1] < len(want) - 1 if st else a[1] != len(want))]
                    ck.decide(False if len(bad) == len(t) else True if len(tt) == len(t) else None, "unpack", f"{label}: {ast.unparse(x.targets[0])}", f"a tuple of {[a[1] for a in bad]} is unpacked into {len(want)} names", f"{rel}:{x.lineno}")
            if fn is not None:
                ck.functions.add(label)
                f = flows[id(fn)]
                und, strong = set(), set()
                for (nm, line), s in f.bad.items():
                    (strong if s else und).add(nm)
                for nm in sorted(strong):
                    line = min(l for (k, l), s in f.bad.items() if k == nm and s)
                    ck.bad("unset", f"{label}: {nm}", "may be read before it is assigned", f"{rel}:{line}")
                for nm in sorted(und - strong):
                    ck.undecided("unset", f"{label}: {nm}", "assigned only if a loop runs or one of the tests of a chain applies")
                ck.ok("unset", label, f"{f.reads} reads")
                ck.count("local_reads", f.reads)
    return ck.finish()


def guarded_has(fn, x):
    """hasattr(obj, "name") tested in the same function"""
    if fn is None:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == x.attr:
            return True
    return False


def show(t):
    return ", ".join(str(a[1]) if len(a) > 1 and isinstance(a[1], str) else a[0] for a in t)


if __name__ == "__main__":
    run(main)
