"""Value semantics of curves, pairs, containers and graphs: modification and aliasing summaries (vf.modref)."""
import ast
from vf.checklib import Check, run
from vf.project import Project
from vf.modref import ModRef, frozen, is_mutable_expr

RULES = {
    "derive": "an operation that is not a declared modifier changes neither the object it is called on nor its arguments",
    "modifier": "a declared modifier changes only the state it is declared to change",
    "exposed": "no operation hands out an internal container that the object itself modifies later",
    "immutable": "objects documented as immutable are written only while they are constructed, or by their set-once setters",
    "set-once": "a set-once setter refuses to overwrite",
    "copy": "a copy or reversal of an object holds none of the original's modifiable containers",
}
SCOPE = ("carbon.tools.", "carbon.pair", "carbon.carbon_order_ui", "carbon.order", "carbon.helpers.sharedvar", "carbon.helpers.floatint")
T = "carbon.tools."
# declared modifiers: function -> attributes it may write (of any object), "*": its own receiver only
MOD = {
    "carbon.carbon_order_ui.CarbonOrderUI.set_id": {"id"},
    "carbon.carbon_order_ui.CarbonOrderUI.set_linked": {"linked"},
    "carbon.carbon_order_ui.CarbonOrderUI.selly": {"y", "yint"},
    "carbon.carbon_order_ui.CarbonOrderUI.buyx": {"y", "yint"},
    "carbon.carbon_order_ui.CarbonOrderUI.tradeto": {"y", "yint"},
    "carbon.carbon_order_ui.CarbonOrderUI.addliqy": {"y", "yint"},
    "carbon.order.Order.y": {"_y"},
    "carbon.order.Order.C": {"_C"},
    "carbon.order.Order.reverseq": {"_reverseq"},
    "carbon.pair.CarbonPair.set_decimals": {"_tknb_decimals", "_tknq_decimals"},
    "carbon.helpers.sharedvar.SharedVar.setval": {"_value"},
    T + "arbgraphs.TrackedStateFloat.reset": {"history", "value"},
    T + "arbgraphs.TrackedStateFloat.set": {"history", "value"},
    T + "arbgraphs.Node.reset_state": {"_state"},
    T + "arbgraphs.Node.set_ix": {"ix"},
    T + "arbgraphs.Node.State.amount": {"history", "value", "amount_"},
    T + "arbgraphs.Edge.reset_state": {"_state"},
    T + "arbgraphs.Edge.set_ix": {"ix"},
    T + "arbgraphs.Edge.transport": {"amount_in_remaining", "amount", "history", "value"},
    T + "arbgraphs.Cycle.CycleIterator.__next__": {"_counter", "ix"},
    T + "arbgraphs.Cycle.run_arbitrage_cycle": {"nodes", "_node_by_tkn", "amount_in_remaining", "amount", "_state", "history", "value", "amount_"},
    T + "arbgraphs.ArbGraph.reset_state": {"_state"},
    T + "arbgraphs.ArbGraph.add_node_obj": {"nodes", "_node_by_tkn", "ix"},
    T + "arbgraphs.ArbGraph.add_node": {"nodes", "_node_by_tkn", "ix"},
    T + "arbgraphs.ArbGraph.add_edge_obj": {"edges", "ix", "nodes", "_node_by_tkn"},
    T + "arbgraphs.ArbGraph.transport": {"amount_in_remaining", "amount", "_state", "history", "value", "amount_", "nodes", "_node_by_tkn"},
    T + "arbgraphs.ArbGraph.run_arbitrage_cycle": {"amount_in_remaining", "amount", "_state", "history", "value", "amount_", "nodes", "_node_by_tkn"},
    T + "cpc.ConstantProductCurve.set_tokenscale": {"tokenscale"},
    T + "cpc.ConstantProductCurve.setcid": {"cid"},
    T + "cpc.CPCContainer.add": {"cid", "tokenscale", "curves", "curves_by_cid", "curveix_by_curve", "curves_by_primary_pair"},
    T + "params.Params.add": {"*", "_params"},
    T + "params.Params.set": {"_params", "*"},
    T + "params.Params.__setitem__": {"_params", "*"},
    T + "params.Params.set_default": {"_defaults"},
    T + "tokenscale.TokenScale.add_scale": {"scale_dct"},
}
for n in ("add_edge", "add_edge_dxdy", "add_edge_connectiontype", "add_edges_cpc"):
    MOD[T + "arbgraphs.ArbGraph." + n] = MOD[T + "arbgraphs.ArbGraph.add_edge_obj"]
MOD[T + "arbgraphs.ArbGraph.run_arbitrage_cycles"] = MOD[T + "arbgraphs.ArbGraph.run_arbitrage_cycle"]
MOD[T + "cpc.CPCContainer.__iadd__"] = MOD[T + "cpc.CPCContainer.add"]
for n in "iadd isub imul ifloordiv idiv itruediv imod ipow ilshift irshift iand ior ixor".split():
    MOD[f"carbon.helpers.sharedvar.SharedVar.__{n}__"] = {"_value"}
# bookkeeping that is not part of the value: put into containers, looked up or created lazily
ATTACHED = {"cid", "tokenscale"}
LAZY = {"_defaults"}
BYNAME = {"nodes", "_node_by_tkn"}
# the parameter table is a thin view of its dictionary by design
ACCESS = {T + "params.Params.params", T + "params.Params.defaults"}
INIT = ("__init__", "__post_init__", "__new__", "__setstate__")


def main():
    ck = Check("C16", "Curves, pairs, containers and graphs behave as values", RULES, floor=250,
               assumptions=["attaching a curve to a container sets its identifier (once) and its token scale; neither is part of the curve's value"])
    p = Project()
    mr = ModRef(p)
    scope = [f for f in mr.fns.values() if f.mod.name.startswith(SCOPE)]
    ck.functions = {f.qual for f in scope}
    ck.callsites = sum(f.calls for f in scope)
    ck.interps = len(scope)
    # names used only from modifiers and constructors: helpers of those
    users = {}
    for f in mr.fns.values():
        for n in ast.walk(f.node):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm:
                users.setdefault(nm, set()).add(f.qual)

    def modifier(q):
        return q in MOD or q.rsplit(".", 1)[-1] in INIT

    frozenc = set()
    for c in p.classes.values():
        if c.mod.name.startswith(SCOPE) and frozen(p, c):
            frozenc.add(c.qual)
    kept = {}
    for f in scope:
        for (o, attr), (ln, how) in f.mods.items():
            if o[0] == ("P", 0) and attr is None and len(o[1]) == 1 and f.cls is not None and f.node.name not in INIT:
                kept.setdefault((f.cls.qual, o[1][0]), f"{f.qual}:{ln}")
    for f in scope:
        if f.cls is None or f.node.name in INIT:
            continue
        # ``object.__setattr__`` and its super() form
        if f.cls.qual in frozenc and f.qual not in MOD:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
                    ck.bad("immutable", f"{f.qual}:__setattr__", f"writes a field of an immutable {f.cls.name} outside its constructor", f"{f.mod.path}:{n.lineno}")
            ck.ok("immutable", f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and f.pos[:1] == [n.target.value.id]:
                if isinstance(n.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)):
                    kept.setdefault((f.cls.qual, n.target.attr), f"{f.qual}:{n.lineno}")
    for f in scope:
        name = f.node.name
        where = f"{f.mod.path}:{f.node.lineno}"
        mods = [(o, a, ln, how) for (o, a), (ln, how) in f.mods.items() if o[0][0] == "P"]
        selfish = f.cls is not None and f.pos[:1] == ["self"]
        if name in INIT:
            n0 = len(ck.broken)
            for o, a, ln, how in mods:
                if o[0] == ("P", 0) and selfish:
                    continue
                at = a or (o[1][-1] if o[1] else "*")
                if at in ATTACHED or at in LAZY:
                    continue
                if (o[1] and o[1][-1] == "*") or "curves" in (o[1][:1] or ()):
                    continue
                ck.bad("derive", f"{f.qual}:{f.params[o[0][1]]}", f"constructing it modifies its argument: {'.'.join((f.params[o[0][1]],) + o[1])} {a or ''}", f"{f.mod.path}:{ln}")
            if len(ck.broken) == n0:
                ck.ok("derive", f.qual)
            continue
        private = name.startswith("_") and not name.startswith("__")
        us = users.get(name, set()) - {f.qual}
        helper = not modifier(f.qual) and us and (private or all(modifier(u) for u in us))
        allowed = MOD.get(f.qual, set())
        n0 = len(ck.broken)
        for o, a, ln, how in mods:
            at = a or (o[1][-1] if o[1] else "*")
            if at == "[]" and len(o[1]) > 1:
                at = o[1][-2]
            # writes to attributes of immutable objects outside their setters
            if a is not None and f.cls is not None and f.cls.qual in frozenc and o == (("P", 0), ()) and not how.startswith("^") and f.qual not in MOD:
                ck.bad("immutable", f"{f.qual}:{a}", f"writes {a} of an immutable {f.cls.name}", f"{f.mod.path}:{ln}")
                continue
            if helper:
                continue
            if at in allowed or at in ATTACHED or at in LAZY:
                continue
            if f.qual == T + "arbgraphs.ArbGraph.node_by_tkn" and at in BYNAME:
                continue        # creates the node when asked to
            rule = "modifier" if modifier(f.qual) else "derive"
            ck.bad(rule, f"{f.qual}:{at}", f"{how.lstrip('^')} of {'.'.join((f.params[o[0][1]],) + o[1])}" + (f".{a}" if a else ""), f"{f.mod.path}:{ln}")
        if len(ck.broken) == n0:
            ck.ok("modifier" if modifier(f.qual) else "derive", f.qual)
        # internal containers handed out
        if f.cls is not None and selfish and not private and f.qual not in ACCESS:
            for o in f.ret.o:
                if o[0] == ("P", 0) and len(o[1]) == 1 and any((k.qual, o[1][0]) in kept for k in p.mro(f.cls)):
                    w = next(kept[(k.qual, o[1][0])] for k in p.mro(f.cls) if (k.qual, o[1][0]) in kept)
                    ck.bad("exposed", f"{f.qual}:{o[1][0]}", f"returns the internal {o[1][0]} itself, which {w} modifies", where)
            ck.ok("exposed", f.qual)
        # a derived object is a new one
        if f.cls is not None and selfish and not modifier(f.qual) and not private and (("P", 0), ()) in f.ret.o and name not in ("__iter__", "plot") and any(k[0] == f.cls.qual for k in kept):
            ck.bad("copy", f"{f.qual}:self", "returns the object itself, which can be modified afterwards", where)
        # copies
        if f.ret.t:
            for r, q, t in f.ret.c:
                if r == ("P", 0) and q and len(t) == 1 and q[-1] not in ("[]", "*") and (f.ret.t, t[0]) in kept and (f.cls is not None and (f.cls.qual, q[-1]) in kept):
                    ck.bad("copy", f"{f.qual}:{t[0]}", f"the new {f.ret.t.rsplit('.', 1)[-1]} holds {'.'.join(q)} of the original itself", where)
            ck.ok("copy", f.qual)
    setonce(ck)
    return ck.finish()


def setonce(ck):
    from checks.formula import F, NOT, EQ, NONE, sym
    f = F(ck)
    cid = sym("CID")
    c = f.obj("curve", "ConstantProductCurve", cid=cid)
    f.fact(NOT(EQ(cid, NONE)))
    f.rejects("set-once", "ConstantProductCurve.setcid on a curve that has an identifier", f.call(c, "setcid", sym("NEWCID")), none_ok=False)


if __name__ == "__main__":
    run(main)
