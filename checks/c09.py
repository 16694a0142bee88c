"""Shared mutable state: modification and aliasing summaries of every function (vf.modref)."""
import ast
from vf.checklib import Check, run
from vf.project import Project, deco_name
from vf.modref import ModRef, is_mutable_expr, frozen

RULES = {
    "shared-write": "no function modifies a module-level object, a class-level object, a class or a function, directly or through an alias",
    "default-field": "no class-level default value of a field is a mutable object that all instances would share",
    "default-arg": "no mutable default argument is modified, stored in an object or returned",
    "shared-alias": "no module-level or class-level container is stored in an object through which it is later modified",
    "captured": "an object derived from another does not hold a container that the other one modifies",
    "cached-result": "no memoised function returns a mutable object",
}
CACHES = {"lru_cache", "cache", "cached", "memoize"}


def show(o):
    r, path = o
    n = {"G": "module-level {0[1]}.{0[2]}", "C": "class-level {0[1]}.{0[2]}", "K": "class {0[1]}", "D": "default of {0[2]} in {0[1]}", "P": "parameter {0[1]}"}[r[0]].format(r)
    return n + "".join("[..]" if s == "[]" else "." + s for s in path)


def main():
    ck = Check("C09", "Independent simulators and containers share no mutable state", RULES, floor=600,
               assumptions=["library functions store and modify only what their documentation says (list, dict, set, collections, copy, functools are modelled)"])
    p = Project()
    mr = ModRef(p)
    ck.functions = {f.qual for f in mr.fns.values()}
    ck.callsites = sum(f.calls for f in mr.fns.values())
    ck.interps = len(mr.fns)
    ck.facts["summary_rounds"] = mr.rounds
    modified, containers = {}, {}
    for f in mr.fns.values():
        for (o, attr), (ln, how) in f.mods.items():
            if o[1] and attr is None and o[1][-1] not in ("[]", "*"):
                containers.setdefault(o[1][-1], f"{f.qual}:{ln}")
            if o[0][0] in "P" and attr is None and len(o[1]) == 1 and f.cls is not None and f.node.name not in ("__init__", "__post_init__") and o[0][1] == 0:
                modified.setdefault((f.cls.qual, o[1][0]), f"{f.qual}:{ln}")
    for f in mr.fns.values():
        where = f"{f.mod.path}:{f.node.lineno}"
        n0 = len(ck.broken)
        for (o, attr), (ln, how) in f.mods.items():
            if o[0][0] == "D":
                ck.bad("default-arg", f"{f.qual}:{o[0][2]}", f"{how} of {show(o)}", f"{f.mod.path}:{ln}")
            elif o[0][0] in "GCK" and not how.startswith("^"):
                ck.bad("shared-write", f"{f.qual}:{o[0][2] if len(o[0]) > 2 else o[0][1].split('.')[-1]}",
                       f"{how} of {show(o)}" + (f" ({attr})" if attr else ""), f"{f.mod.path}:{ln}")
        for (t, attr, v), ln in f.stores.items():
            if v[0][0] == "D" and not v[1] and v[0][1] == f.qual:
                ck.bad("default-arg", f"{f.qual}:{v[0][2]}", f"{show(v)} is stored in {show(t)}.{attr}", f"{f.mod.path}:{ln}")
            elif v[0][0] in "GC" and not v[1] and attr and "/" not in attr and attr in containers and v[0][2] not in ("module",):
                ck.bad("shared-alias", f"{f.qual}:{attr}", f"{show(v)} is stored in {attr}, which {containers[attr]} modifies", f"{f.mod.path}:{ln}")
        for o in f.ret.o:
            if o[0][0] == "D" and not o[1] and o[0][1] == f.qual:
                ck.bad("default-arg", f"{f.qual}:{o[0][2]}", f"{show(o)} is returned", where)
        if len(ck.broken) == n0:
            ck.ok("shared-write", f.qual)
        for r, q, t in f.ret.c:
            if r[0] == "P" and q and len(t) == 1 and f.ret.t and q[-1] not in ("[]", "*"):
                if (f.ret.t, t[0]) in modified and (q[-1] == t[0] or f.cls is not None and r[1] == 0 and any((k.qual, q[-1]) in modified for k in p.mro(f.cls))):
                    ck.bad("captured", f"{f.qual}:{t[0]}", f"the new {f.ret.t} holds the {'.'.join(q)} of the object it was made from, modified by {modified[(f.ret.t, t[0])]}", where)
            elif r[0] == "P" and not q and len(t) == 1 and f.ret.t and (f.ret.t, t[0]) in modified and f.pos[r[1]:r[1] + 1] != ["self"]:
                ck.bad("captured", f"{f.qual}:{t[0]}", f"the new {f.ret.t} keeps argument {f.params[r[1]]} itself as {t[0]}, which {modified[(f.ret.t, t[0])]} modifies", where)
        if f.cls is not None and f.node.name in ("__init__", "__post_init__"):
            for (t, attr, v), ln in f.stores.items():
                if t == (("P", 0), ()) and v[0][0] == "P" and v[0][1] > 0 and not v[1] and (f.cls.qual, attr) in modified:
                    ck.bad("captured", f"{f.qual}:{attr}", f"argument {f.params[v[0][1]]} itself is kept as {attr}, which {modified[(f.cls.qual, attr)]} modifies", f"{f.mod.path}:{ln}")
        if f.ret.t:
            ck.ok("captured", f.qual)
        for d in f.node.decorator_list:
            if deco_name(d) in CACHES:
                bad = [n for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None and is_mutable_expr(p, f.mod.name, n.value)]
                ck.decide(not bad, "cached-result", f.qual, "returns one mutable object to every caller", f"{f.mod.path}:{bad[0].lineno if bad else 0}")
    for c in p.classes.values():
        for n, ann, d in c.fields:
            if d is None:
                continue
            m = is_mutable_expr(p, c.mod.name, d)
            if isinstance(d, ast.Call) and deco_name(d) == "field":
                for kw in d.keywords:
                    if kw.arg == "default_factory" and isinstance(kw.value, ast.Lambda) and isinstance(kw.value.body, (ast.Name, ast.Attribute)):
                        d = kw.value.body
                    elif kw.arg == "default":
                        d = kw.value
            if not m and isinstance(d, (ast.Name, ast.Attribute)):
                r = p.resolve_expr(c.mod.name, d)
                if r and r[0] == "assign":
                    m = is_mutable_expr(p, r[1], r[2])
            if "ClassVar" in ast.dump(ann) if ann is not None else False:
                m = False
            ck.decide(not m, "default-field", f"{c.qual}.{n}", "every instance would share this default object", f"{c.mod.path}:{d.lineno}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
