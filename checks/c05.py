from checks.trade import *

RULES = {
    "mirror": "a negative amount on the mirror operation has the same matcher call, settlement, trade record and outcome as the positive amount",
    "alias": "the trader-side name has the same matcher call, settlement, trade record and outcome as the AMM-side name",
    "reach": "amount, order threshold and partial-fill option of the request are the arguments the matcher receives",
    "inpair": "no match is made when routing across pairs is requested",
    "pair": "the pair given with the request is used; the simulator's default pair only when none is given",
    "order": "an order or strategy is stored with exactly the token, amount, range, marginal price or capacity and ids asked for",
    "single": "add_order stores the same sell order as add_strategy with the same options",
    "matching": "order threshold and partial-fill option reach the matching step of the matcher",
}
MIRROR = {"amm_buys": "amm_sells", "amm_sells": "amm_buys"}
ALIAS = {"amm_buys": "trader_sells", "amm_sells": "trader_buys"}
POS_AMT = LT(const(0), sym("AMT"))
OPTS = {"execute": sym("EXEC"), "inpair": sym("INPAIR"), "threshold_orders": sym("THR"), "use_positions": sym("POS"), "support_partial": sym("PARTIAL")}
LIMITS = {"price": {"limit_price": sym("LP"), "limit_amt": NONE}, "amount": {"limit_price": NONE, "limit_amt": sym("LA")}, "none": {"limit_price": NONE, "limit_amt": NONE}}


def make(mode, d, amt=None, opts=True, lim="none", facts=()):
    a = dict(OPTS) if opts else {}
    fs = [POS_AMT] + list(facts)
    if opts:
        a.update(LIMITS[lim])
        fs += [NOT(EQ(v, NONE)) for v in LIMITS[lim].values() if v is not NONE]
    return TradeRun(mode, d, a, fs, amt=amt, ctor=SETUP if opts else None)


def compare(ck, rule, name, r1, r2):
    """the two runs have the same observable behaviour"""
    C = r1.canon(positive=[r1.AMT])
    c1, c2 = r1.router_call(), r2.router_call()
    if not c1 or not c2:
        return ck.undecided(rule, name, "matcher call not recognised")
    where = r2.calls[0].where
    same = r1.calls[0].key.split(".")[-1] == r2.calls[0].key.split(".")[-1]
    ck.decide(same, rule, name + ":matcher", f"matcher {r2.calls[0].key} instead of {r1.calls[0].key}", where)
    if not same:
        return
    G = r1.facts
    ok = True
    for k in sorted(set(c1[1]) | set(c2[1])):
        a, b = c1[1].get(k, NONE), c2[1].get(k, NONE)
        if k == "self":
            a, b = c1[2], c2[2]
            if a is None or b is None:
                ck.undecided(rule, f"{name}:orders", "orders not recognised")
                continue
        v = same3(C, a, b, G)
        ok = ok and v is True
        ck.decide(v, rule, f"{name}:{'orders' if k == 'self' else k}", f"the matcher gets {k}={short(r2, b)} instead of {short(r1, a)}", where)
    v = same3(C, ITE(r1.calls[0].guard, TRUE, FALSE), ITE(r2.calls[0].guard, TRUE, FALSE), G)
    ck.decide(v, rule, f"{name}:when", f"match made if {short(r2, r2.calls[0].guard)}", where)
    if not ok:
        return
    mp = {c2[0]: c1[0]}
    S = lambda t: subst(t, mp) if t is not None else None

    def effs(r):
        g = {}
        for e in r.order_effects():
            g.setdefault((e.kind, e.key if isinstance(e.key, str) else S(e.key) if r is r2 else e.key), []).append(e)
        return g
    g1, g2 = effs(r1), effs(r2)
    for k in sorted(set(g1) | set(g2), key=str):
        l1, l2 = g1.get(k, []), g2.get(k, [])
        nm = f"{name}:{k[0]} {k[1] if isinstance(k[1], str) else 'entry'}"
        if len(l1) != len(l2):
            u = lambda l: OR(*[S(e.guard) for e in l])
            v = same3(C, ITE(u(l1), TRUE, FALSE), ITE(u(l2), TRUE, FALSE), G)
            ck.decide(False if v is False else None, rule, nm, f"{len(l2)} instead of {len(l1)} writes", where)
            continue
        for e1, e2 in zip(l1, l2):
            vs = [same3(C, e1.base, S(e2.base), G)]
            if e1.value is not None and e2.value is not None:
                vs.append(same3(C, ITE(e1.guard, e1.value, NONE), ITE(S(e2.guard), S(e2.value), NONE), G))
            ck.decide(False if False in vs else None if None in vs else True, rule, nm,
                      f"writes {short(r2, e2.value) if e2.value is not None else ''} when {short(r2, e2.guard)}, instead of {short(r1, e1.value) if e1.value is not None else ''} when {short(r1, e1.guard)}", e2.where)
    for nm, x1, x2 in (("route", r1.route_row(), r2.route_row()), ("total", r1.total_row(), r2.total_row())):
        if x1 is None or x2 is None:
            ck.undecided(rule, f"{name}:{nm} row", "row not recognised")
            continue
        for col in sorted(set(x1[1]) | set(x2[1])):
            if col not in x1[1] or col not in x2[1]:
                ck.bad(rule, f"{name}:{nm} row:{col}", "column present in only one of the records", x2[0].where)
                continue
            v = same3(C, x1[1][col], S(x2[1][col]), G)
            ck.decide(v, rule, f"{name}:{nm} row:{col}", f"records {short(r2, x2[1][col])} instead of {short(r1, x1[1][col])}", x2[0].where)


def trades(ck, mode, d):
    for lim in ("none", "price", "amount"):
        r1 = make(mode, d, lim=lim)
        ck.absorb(r1.I)
        r2 = make(mode, MIRROR[d], amt=NEG(sym("AMT")), lim=lim, facts=[LT(NEG(sym("AMT")), const(0))])
        ck.absorb(r2.I)
        guarded(ck, "mirror", f"{mode}/{d}/{lim}", lambda: compare(ck, "mirror", f"{mode}/{d}/{lim}", r1, r2))
    r1 = make(mode, d, lim="none")
    r3 = make(mode, ALIAS[d], lim="none")
    guarded(ck, "alias", f"{mode}/{ALIAS[d]}", lambda: compare(ck, "alias", f"{mode}/{ALIAS[d]}", r1, r3))
    r4, r5, r6 = make(mode, d, opts=False), make(mode, MIRROR[d], amt=NEG(sym("AMT")), opts=False, facts=[LT(NEG(sym("AMT")), const(0))]), make(mode, ALIAS[d], opts=False)
    guarded(ck, "mirror", f"{mode}/{d}/defaults", lambda: compare(ck, "mirror", f"{mode}/{d}/defaults", r4, r5))
    guarded(ck, "alias", f"{mode}/{ALIAS[d]}/defaults", lambda: compare(ck, "alias", f"{mode}/{ALIAS[d]}/defaults", r4, r6))
    C = r1.canon(positive=[r1.AMT])
    c = r1.router_call()
    if not c:
        return ck.undecided("reach", f"{mode}/{d}", "matcher call not recognised")
    want = {"threshold_orders": OPTS["threshold_orders"], "support_partial": OPTS["support_partial"], "x": sym("AMT") if d == "amm_buys" else NEG(sym("AMT"))}
    for k, w in want.items():
        got = c[1].get(k)
        v = False if got is None else same3(C, got, w, r1.facts)
        ck.decide(v, "reach", f"{mode}/{d}:{k}", f"the matcher gets {k}={short(r1, got) if got is not None else 'nothing'} instead of {brief(w)}", r1.calls[0].where)
    meth = r1.calls[0].key.split(".")[-1]
    ck.decide(meth == ("match_by_src" if d == "amm_buys" else "match_by_target"), "reach", f"{mode}/{d}:direction", f"{d} is matched with {meth}", r1.calls[0].where)
    v = imp3(C, AND(r1.facts, r1.calls[0].guard), truth(OPTS["inpair"]))
    ck.decide(v, "inpair", f"{mode}/{d}", f"match made when {short(r1, r1.calls[0].guard)}", r1.calls[0].where)


def pairs(ck, d):
    DEF = sym("DEFPAIR")

    def mk_(pair):
        I0 = None
        return TradeRun("exact", d, {"pair": pair, "limit_price": NONE, "limit_amt": NONE, "use_positions": NONE, "execute": TRUE},
                        [POS_AMT, truth(DEF)], ctor={"pair": DEF}, types={DEF: "CarbonPair"})
    r1, r2 = mk_(sym("PAIR")), mk_(NONE)
    ck.absorb(r1.I)
    ck.absorb(r2.I)
    c1, c2 = r1.router_call(), r2.router_call()
    if not c1 or not c2 or c1[2] is None or c2[2] is None:
        return ck.undecided("pair", d, "matcher call not recognised")
    u1 = contains(c1[2], DEF)
    ck.decide(not u1 and contains(c1[2], sym("PAIR")), "pair", f"{d}/given", f"orders offered: {brief(c1[2], 300)}", r1.calls[0].where)
    C = r1.canon(positive=[r1.AMT])
    v = same3(C, subst(c1[2], {sym("PAIR"): DEF}), c2[2], AND(r2.facts, subst(r1.facts, {sym("PAIR"): DEF})))
    ck.decide(v, "pair", f"{d}/default", f"orders offered: {brief(c2[2], 300)}", r2.calls[0].where)


# ---------------------------------------------------------------------------------- creation
S1 = {"amt_sell": sym("AMT_SELL"), "psell_start": sym("PS_START"), "psell_end": sym("PS_END"), "amt_buy": sym("AMT_BUY"), "pbuy_start": sym("PB_START"),
      "pbuy_end": sym("PB_END")}
CASES = {
    "plain": ({}, {}),
    "marginal": ({"psell_marginal": sym("PS_MARG"), "pbuy_marginal": sym("PB_MARG")}, {}),
    "capacity": ({"y_int_sell": sym("YINT_SELL"), "y_int_buy": sym("YINT_BUY")}, {}),
    "sellonly": ({}, ("amt_buy", "pbuy_start", "pbuy_end")),
    "buyonly": ({}, ("amt_sell", "psell_start", "psell_end")),
    "mixed": ({"psell_marginal": sym("PS_MARG"), "y_int_buy": sym("YINT_BUY")}, {}),
    "mixed2": ({"y_int_sell": sym("YINT_SELL"), "pbuy_marginal": sym("PB_MARG")}, {}),
    "sellmarginal": ({"psell_marginal": sym("PS_MARG")}, ("amt_buy", "pbuy_start", "pbuy_end")),
    "carbonid": ({"carbon_id": sym("CID")}, {}),
}


def conv(a, p, which):
    """price p of the pair convention in units of the token sold"""
    return p if which == "quote" else arith("div", const(1), p)


def fields_of(a, e):
    return {n: a.field(e.value, n) for n in ("tkn", "_y", "y_int", "p_low", "p_high", "disabled", "pair", "pair_name", "id", "linked_to_id", "carbon_id")}


def spec_order(a, which, amt, p1, p2, marg, yint):
    """fields an order selling the `which` token of the pair must have"""
    w = {"tkn": a.tkn[which], "pair": a.PAIR}
    w["_y"] = amt if amt is not None else const(0)
    if p1 is None:
        w["disabled"], w["p_low"], w["p_high"] = TRUE, const(0), const(0)
    else:
        x, y = conv(a, p1, which), conv(a, p2, which)
        w["disabled"] = FALSE
        w["p_low"], w["p_high"] = ITE(LE(x, y), x, y), ITE(LE(x, y), y, x)
    if yint is not None:
        w["y_int"] = yint
    elif marg is None:
        w["y_int"] = w["_y"]
    else:
        q = lambda t: mk("sqrt", t)
        w["y_int"] = arith("div", arith("mul", w["_y"], SUB(q(w["p_high"]), q(w["p_low"]))), SUB(q(conv(a, marg, which)), q(w["p_low"])))
    return w


def creation(ck, rule, only=None):
    for side in ("base", "quote"):
        other = "quote" if side == "base" else "base"
        for case, (extra, drop) in CASES.items():
            given = {k: v for k, v in S1.items() if k not in drop}
            given.update(extra)
            pos = [v for v in given.values() if v is not sym("CID")]
            name = f"add_strategy/{side}/{case}"
            a = AddRun("add_strategy", side, given, ctor=SETUP, facts=[LE(const(0), v) if n.startswith("amt") or n.startswith("y_") else LT(const(0), v) for n, v in given.items() if n != "carbon_id"] +
                       ([NOT(EQ(sym("PS_START"), sym("PS_END"))), NOT(EQ(sym("PB_START"), sym("PB_END")))] if "PS_MARG" in str(given) or "PB_MARG" in str(given) else []))
            ck.absorb(a.I)
            ss = a.stores()
            C = a.canon(positive=pos)
            if len(ss) != 2:
                if a.dead:
                    ck.bad(rule, name, "the request is always rejected", "")
                else:
                    ck.undecided(rule, name, f"{len(ss)} stores")
                continue
            G = AND(a.facts, a.live)
            got = {}
            for e in ss:
                f = fields_of(a, e)
                for w in ("base", "quote"):
                    if C.same(f["tkn"], a.tkn[w], G):
                        got[w] = (e, f)
            if len(got) != 2:
                ck.bad(rule, name + ":tokens", "the two orders do not sell the two tokens of the pair: " + ", ".join(brief(a.field(e.value, "tkn"), 100) for e in ss), ss[0].where)
                continue
            g = given.get
            for w, amt, p1, p2, mg, yi in ((side, g("amt_sell"), g("psell_start"), g("psell_end"), g("psell_marginal"), g("y_int_sell")),
                                           (other, g("amt_buy"), g("pbuy_start"), g("pbuy_end"), g("pbuy_marginal"), g("y_int_buy"))):
                e, f = got[w]
                want = spec_order(a, w, amt, p1, p2, mg, yi)
                if case == "carbonid":
                    want["carbon_id"] = sym("CID")
                for n, t in want.items():
                    if only and n not in only:
                        continue
                    v = same3(C, f[n], t, G)
                    ck.decide(v, rule, f"{name}:{'sell' if w == side else 'buy'} order {n}", f"stored {n} is {brief(f[n], 300)}, asked for {brief(t, 200)}", e.where)


def single(ck):
    m = {"amt": "amt_sell", "p_start": "psell_start", "p_end": "psell_end", "p_marginal": "psell_marginal", "y_int": "y_int_sell"}
    for side in ("base", "quote"):
        for case, opts in (("plain", ("amt", "p_start", "p_end")), ("marginal", ("amt", "p_start", "p_end", "p_marginal")), ("capacity", ("amt", "p_start", "p_end", "y_int"))):
            g1 = {k: sym(k.upper()) for k in opts}
            g2 = {m[k]: v for k, v in g1.items()}
            fs = [LE(const(0), v) if n in ("amt", "y_int") else LT(const(0), v) for n, v in g1.items()]
            a, b = AddRun("add_order", side, g1, facts=fs), AddRun("add_strategy", side, g2, facts=fs)
            ck.absorb(a.I)
            name = f"{side}/{case}"
            C = a.canon(positive=list(g1.values()))
            s1, s2 = a.stores(), b.stores()
            if len(s1) != len(s2):
                ck.decide(False if s1 and s2 else None, "single", name, f"add_order stores {len(s1)} orders, add_strategy {len(s2)}", s1[0].where if s1 else "")
                continue
            for e1, e2 in zip(s1, s2):
                f1, f2 = fields_of(a, e1), fields_of(b, e2)
                for n in ("tkn", "_y", "y_int", "p_low", "p_high", "disabled", "pair"):
                    v = same3(C, f1[n], f2[n], AND(a.facts, a.live))
                    ck.decide(v, "single", f"{name}:{n}", f"add_order stores {brief(f1[n], 200)}, add_strategy {brief(f2[n], 200)}", e1.where)
            if case == "capacity":
                continue                        # not available for an order that stands alone
            a = AddRun("_add_replace_single_order", side, g1, ctor={"exclude_future": FALSE}, facts=fs)
            ck.absorb(a.I)
            s1 = a.stores()
            if len(s1) != 1 or not s2:
                ck.decide(False if s1 and s2 else None, "single", name + "/alone", f"_add_replace_single_order stores {len(s1)} orders", s1[0].where if s1 else "")
                continue
            f1, f2 = fields_of(a, s1[0]), fields_of(b, s2[0])
            C = a.canon(positive=list(g1.values()))
            for n in ("tkn", "_y", "y_int", "p_low", "p_high", "disabled", "pair"):
                v = same3(C, f1[n], f2[n], AND(a.facts, a.live))
                ck.decide(v, "single", f"{name}/alone:{n}", f"_add_replace_single_order stores {brief(f1[n], 200)}, add_strategy {brief(f2[n], 200)}", s1[0].where)


# ---------------------------------------------------------------------------------- matchers
def matching(ck):
    for cls, meth in (("AlphaRouter", "match_by_src"), ("AlphaRouter", "match_by_target"), ("ExactRouterX0Y0N", "match_by_src"), ("ExactRouterX0Y0N", "match_by_target")):
        name = f"{cls}.{meth}"
        I = new_interp(opaque={"ExactBase.match", "ExactRouterX0Y0N.match", "AlphaRouter.gen_one_order_selector"})
        st = I.state()
        r = I.construct(I.qual(cls), [], {}, st, None)
        O = sym("ORDERS")
        I.settype(O, ("list", ("cls", I.qual("Order"))))
        st.heap[(r, "f", "orders")] = O
        I.effects.clear()
        X, THR, PA, LIQ = sym("X"), sym("THR"), sym("PARTIAL"), sym("LIQ")
        st.push(NOT(EQ(THR, NONE)))
        try:
            I.call_method(r, meth, [], {"x": X, "threshold_orders": THR, "support_partial": PA, "check_sufficient_liquidity": LIQ}, st)
        except Dead:
            pass
        ck.absorb(I)
        C = Canon(I)
        calls = [e for e in I.effects if e.kind == "opaque_call" and str(e.key).split(".")[-1] == "match"]
        sel = [e for e in I.effects if e.kind == "opaque_call" and str(e.key).split(".")[-1] == "gen_one_order_selector"]
        if not calls:
            ck.undecided("matching", name, "matching step not found")
            continue
        for e in calls:
            a = {k.args[0]: k.args[1] for k in e.value.args if isinstance(k, T) and k.op == "kw"}
            for k, w in (("support_partial", PA), ("check_sufficient_liquidity", LIQ)):
                got = a.get(k)
                v = False if got is None else same3(C, got, w, NOT(EQ(THR, NONE)))
                ck.decide(v, "matching", f"{name}:{k}", f"matching step gets {k}={brief(got, 100) if got is not None else 'its default'}", e.where)
            b = a.get("is_by_target")
            ck.decide(None if b is None else same3(C, b, TRUE if meth.endswith("target") else FALSE), "matching", f"{name}:is_by_target", f"matching step gets is_by_target={brief(b, 100) if b is not None else 'its default'}", e.where)
        if cls == "AlphaRouter":
            if not sel:
                ck.undecided("matching", f"{name}:threshold", "order selection not found")
            for e in sel:
                vals = [k.args[1] if isinstance(k, T) and k.op == "kw" else k for k in e.value.args]
                hit = any(isinstance(x, T) and C.same(x, THR, NOT(EQ(THR, NONE))) for x in vals)
                ck.decide(True if hit else None if any(isinstance(x, T) and unknown(C, x) and contains(x, THR) for x in vals) else False, "matching", f"{name}:threshold",
                          "the number of orders to select is not the requested threshold", e.where)


def main():
    ck = Check("C05", "trade and order options take effect unchanged", RULES, floor=100, assumptions=["the traded token is one of the two distinct tokens of the pair"])
    for m in MODES:
        for d in DIRS:
            guarded(ck, "mirror", f"{m}/{d}", lambda: trades(ck, m, d))
    for d in DIRS:
        guarded(ck, "pair", d, lambda: pairs(ck, d))
    guarded(ck, "order", "add_strategy", lambda: creation(ck, "order"))
    guarded(ck, "single", "add_order", lambda: single(ck))
    guarded(ck, "matching", "routers", lambda: matching(ck))
    return ck.finish()
