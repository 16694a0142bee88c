from checks.trade import *
from checks.c05 import S1, CASES

RULES = {
    "filed": "an order is filed in the book under its own id",
    "fresh": "the id of a new order is drawn from the simulator's never-repeating id source, a different draw for each order",
    "linked": "a strategy's two orders are linked to each other; a single order is linked to itself or to the order asked for",
    "tokens": "a strategy's two orders belong to the pair asked for and sell its two different tokens",
    "views": "the returned order views are keyed by order id, and linked to each other as the orders are",
    "delete": "deleting a position removes it and the order linked to it, and nothing else",
    "nowhere": "an existing order is never replaced, removed or relinked by creating orders or trading",
}


def strategy(ck, side, meth="add_strategy", case="plain"):
    extra, drop = CASES[case] if meth == "add_strategy" else ({}, ())
    given = {k: v for k, v in S1.items() if k not in drop}
    given.update(extra)
    if meth == "add_order":
        given = {{"amt_sell": "amt", "psell_start": "p_start", "psell_end": "p_end"}[k]: v for k, v in given.items() if k.endswith(("_sell", "_start", "_end")) and "buy" not in k}
    a = AddRun(meth, side, given, ctor=SETUP, facts=[LT(const(0), v) for k, v in given.items() if k != "carbon_id"] +
               ([NOT(EQ(sym("PS_START"), sym("PS_END"))), NOT(EQ(sym("PB_START"), sym("PB_END")))] if "PS_MARG" in str(given) or "PB_MARG" in str(given) else []))
    ck.absorb(a.I)
    C = a.canon(positive=[v for k, v in given.items() if k != "carbon_id"])
    G = AND(a.facts, a.live)
    ss = a.stores()
    name = f"{meth}/{side}/{case}"
    for e in a.order_effects():
        if e in ss:
            continue
        if C.unsat(AND(G, e.guard)):
            continue
        ck.decide(None if unknown(C, e.guard) and not C.implies(G, e.guard) or not C.refuted(G, NOT(e.guard)) else False, "nowhere", f"{name}:{e.kind}",
                  f"{e.kind} on an existing order or the order book when an order is created", e.where)
    if a.dead:
        return ck.bad("filed", name, "the request is always rejected", "")
    if len(ss) != 2:
        return ck.undecided("filed", name, f"{len(ss)} stores")
    f = [{n: a.field(e.value, n) for n in ("id", "linked_to_id", "tkn", "pair", "pair_name")} for e in ss]
    for i, e in enumerate(ss):
        v = same3(C, e.key, f[i]["id"], G)
        ck.decide(v, "filed", f"{name}:{i}", f"order with id {brief(f[i]['id'], 100)} filed under {brief(e.key, 100)}", e.where)
        o = f[1 - i]["id"]
        v = same3(C, f[i]["linked_to_id"], o, G)
        ck.decide(v, "linked", f"{name}:{i}", f"order {brief(f[i]['id'], 100)} is linked to {brief(f[i]['linked_to_id'], 100)}, the other order is {brief(o, 100)}", e.where)
        v = same3(C, f[i]["pair_name"], a.I.freeze(a.I.getattr(a.PAIR, "pair_iso", a.st, None), a.st), G)
        ck.decide(v, "tokens", f"{name}:{i}:pair_name", f"pair name is {brief(f[i]['pair_name'], 100)}", e.where)
        v = same3(C, f[i]["pair"], a.PAIR, G)
        ck.decide(v, "tokens", f"{name}:{i}:pair", f"pair is {brief(f[i]['pair'], 100)}", e.where)
    fresh(ck, name, C, G, [x["id"] for x in f], ss)
    g = [w for x in f for w in ("base", "quote") if C.same(x["tkn"], a.tkn[w], G)]
    ck.decide(sorted(g) == ["base", "quote"] if len(g) == 2 else (None if any(unknown(C, x["tkn"]) for x in f) else False), "tokens", name,
              "tokens sold are " + ", ".join(brief(x["tkn"], 100) for x in f), ss[0].where)
    # returned views
    d = result_dict(a)
    ui = d.get("orderuis") if d else None
    m = a.I.content(ui, a.st) if ui is not None else None
    if m is None or m.op != "dict" or any(kv.op != "kv" for kv in m.args):
        return ck.undecided("views", name, "returned views not recognised")
    ids = [kv.args[0] for kv in m.args]
    uis = [kv.args[1] for kv in m.args]
    if len(ids) != 2:
        return ck.decide(None, "views", name, f"{len(ids)} views")
    for i in (0, 1):
        v = a.field(uis[i], "id")
        ck.decide(same3(C, v, ids[i], G), "views", f"{name}:{i}:key", f"view of order {brief(v, 100)} is returned under {brief(ids[i], 100)}", ss[0].where)
        lk = a.field(uis[i], "linked")
        ok = lk is uis[1 - i]
        ck.decide(ok if ok or lk.op in ("obj", "const") else None, "views", f"{name}:{i}:linked", f"view {i} is linked to {brief(lk, 100)}", ss[0].where)
        hit = any(C.same(ids[i], x["id"], G) for x in f)
        ck.decide(hit if hit or not unknown(C, ids[i]) else None, "views", f"{name}:{i}:id", f"{brief(ids[i], 100)} is not the id of a stored order", ss[0].where)


def result_dict(a):
    c = a.I.content(a.result, a.st) if a.result is not None else None
    if c is None or c.op != "dict":
        return None
    return {cval(kv.args[0]): kv.args[1] for kv in c.args if kv.op == "kv" and kv.args[0].op == "const"}


def fresh(ck, name, C, G, ids, ss):
    cs = [C.canon(i) for i in ids]
    for i, (t, e) in enumerate(zip(ids, ss)):
        leaves = set()

        def leaf(p):
            leaves.add(p)
            return p
        try:
            C.lift(leaf, cut(C, cs[i], G))
        except Undecided:
            pass
        if all(p.op == "draw" for p in leaves) and leaves:
            ck.ok("fresh", f"{name}:{i}")
        elif any(contains_op(p, "len") for p in leaves):
            ck.bad("fresh", f"{name}:{i}", f"id is {brief(t, 200)}, which repeats after a deletion", e.where)
        elif all(p.op in ("num", "const") for p in leaves):
            ck.bad("fresh", f"{name}:{i}", f"id is the constant {brief(t, 100)}", e.where)
        else:
            ck.undecided("fresh", f"{name}:{i}", f"id is {brief(t, 200)}")
    if len(ids) == 2:
        same = C.same(ids[0], ids[1], G)
        ck.decide(not same, "fresh", f"{name}:distinct", "the two orders have the same id", ss[0].where)


def source(ck):
    """nothing but the construction of a simulator sets its id source"""
    from vf.modref import ModRef
    a = AddRun("add_strategy", "base", dict(S1))
    src = set()
    for e in a.stores():
        for x in subterms(a.I.freeze(a.field(e.value, "id"), a.st)):
            if x.op == "draw":
                src.add(x.args[0])
    sim = a.sim
    names = {k[2] for k, v in a.st.heap.items() if len(k) == 3 and k[0] is sim and k[1] == "f" and v in src}
    if not names:
        return ck.undecided("fresh", "id source", "the field holding the id source was not recognised")
    p = a.I.p
    mr = ModRef(p)
    n = 0
    for f in mr.fns.values():
        for (o, attr), (ln, how) in f.mods.items():
            if attr in names and ": " not in how and not (o == (("P", 0), ()) and f.node.name in ("__init__", "__post_init__")):
                if (o, "orders") in f.mods or not f.mod.name.startswith("carbon.simulators"):
                    continue            # a simulator emptied together with its id source; objects of other modules
                ck.bad("fresh", f"{f.qual}: {attr}", f"{how} of the id source of an existing simulator: ids are given out again", f"{f.mod.path}:{ln}")
        if f.mod.name.startswith("carbon.simulators"):
            n += 1
    ck.count("functions searched for writes of the id source", n)
    ck.ok("fresh", "id source")


def cut(C, d, G):
    return d


def contains_op(t, op):
    return any(x.op == op for x in subterms(t))


def single(ck):
    for case in ("new", "given"):
        I = new_interp(ident_methods={"upper"})
        g = {"amt": sym("AMT"), "p_start": sym("PS"), "p_end": sym("PE")}
        if case == "given":
            g.update(oid=sym("OID"), lid=sym("LID"))
        a = AddRun("_add_replace_single_order", "base", g, ctor={"exclude_future": FALSE})
        ck.absorb(a.I)
        C = a.canon(positive=[sym("PS"), sym("PE")])
        G = AND(a.facts, a.live)
        name = f"single/{case}"
        ss = a.stores()
        if len(ss) != 1:
            ck.undecided("filed", name, f"{len(ss)} stores")
            continue
        e = ss[0]
        i, l = a.field(e.value, "id"), a.field(e.value, "linked_to_id")
        ck.decide(same3(C, e.key, i, G), "filed", name, f"order with id {brief(i, 100)} filed under {brief(e.key, 100)}", e.where)
        ck.decide(same3(C, l, sym("LID") if case == "given" else i, G), "linked", name, f"linked to {brief(l, 100)}", e.where)
        if case == "given":
            ck.decide(same3(C, i, sym("OID"), G), "filed", name + ":oid", f"id is {brief(i, 100)}", e.where)
        else:
            fresh(ck, name, C, G, [i], ss)


def delete(ck, meth):
    I = new_interp(ident_methods={"upper"})
    st = I.state()
    sim = I.construct(I.qual("CarbonSimulatorUI"), [], {"raiseonerror": TRUE}, st, None)
    O, P = sym("ORDERS"), sym("POSID")
    I.settype(O, ("dict", ("int",), ("cls", I.qual("Order"))))
    st.heap[(sim, "f", "orders")] = O
    I.settype(P, ("int",))
    I.effects.clear()
    known = IN(P, O)
    try:
        I.call_method(sim, meth, [P], {}, st)
    except Dead:
        pass
    ck.absorb(I)
    C = Canon(I)
    link = ATTR(ITEM(O, P), "linked_to_id")
    dels = []
    for e in I.effects:
        if e.kind in ("setattr", "setitem", "delitem", "delattr", "mutcall") and e.base is not None and (e.base is O or (contains(e.base, O) and e.base.op != "obj")):
            key = e.key
            if e.kind == "mutcall" and e.key == "pop" and e.base is O:
                v = e.value.args if e.value is not None else ()
                key = next((x for x in v if isinstance(x, T) and x is not O), None)
                if key is None:
                    return ck.undecided("delete", meth, "argument of pop not recognised")
            elif e.kind != "delitem" or e.base is not O:
                ck.bad("delete", f"{meth}:{e.kind}", f"{e.kind} of {e.key if isinstance(e.key, str) else brief(e.key, 80)} on {brief(e.base, 80)}", e.where)
                continue
            dels.append((key, e.guard, e))
    if not dels:
        return ck.bad("delete", meth, "nothing is removed", "") if not I.limits else ck.undecided("delete", meth, "no removal found")
    # the union over removals: P always (when known), the linked id exactly when it differs
    K = sym("ANYID")
    got = OR(*[AND(g, EQ(K, k)) for k, g, _ in dels])
    want = AND(OR(EQ(K, P), EQ(K, link)))
    # the failure branch of looking the position up (KeyError) is the only one on which nothing is removed
    ex = [t for t in subterms(got) if t.op == "exc"]
    mp = {truth(t): FALSE for t in ex}
    mp.update({t: FALSE for t in ex})
    got2 = subst(got, mp)
    inv = AND(known, NOT(EQ(link, NONE)))
    C.rule = None
    v = same3(C, ITE(got2, TRUE, FALSE), ITE(want, TRUE, FALSE), inv)
    ck.decide(v, "delete", meth, f"removed: {'; '.join(brief(k, 80) + ' when ' + brief(g, 160) for k, g, _ in dels)}", dels[0][2].where)


NO_ADD = ("amm_buys", "amm_sells", "trader_buys", "trader_sells")


def main():
    ck = Check("C08", "order-book linkage stays consistent", RULES, floor=14)
    for s in ("base", "quote"):
        for case in CASES:
            guarded(ck, "linked", f"add_strategy/{s}/{case}", lambda: strategy(ck, s, "add_strategy", case))
        guarded(ck, "linked", f"add_order/{s}", lambda: strategy(ck, s, "add_order"))
    guarded(ck, "fresh", "id source", lambda: source(ck))
    guarded(ck, "linked", "single", lambda: single(ck))
    for m in ("delete_order", "delete_strategy"):
        guarded(ck, "delete", m, lambda: delete(ck, m))
    for mode in MODES:
        for d in NO_ADD:
            r = TradeRun(mode, d, {"use_positions": sym("POS")}, [NN])
            ck.absorb(r.I)
            for e in r.order_effects():
                if e.base is r.ORDERS:
                    ck.bad("nowhere", f"{mode}/{d}:{e.kind}", f"{e.kind} on the order book", e.where)
                elif e.kind == "setattr" and e.key in ("id", "linked_to_id", "tkn", "pair", "pair_name"):
                    ck.bad("nowhere", f"{mode}/{d}:{e.key}", f"{e.key} of an order changed by a trade", e.where)
            ck.ok("nowhere", f"{mode}/{d}")
    return ck.finish()
