from checks.trade import *

RULES = {
    "gate": "orders are changed only on paths where the reported price is at or better than the limit for the trader",
    "record": "the trade record marks a trade executed iff execution was requested and the limit is met, and marks a failed limit as such",
    "reach": "a trade whose limit is met and whose execution was requested does settle",
    "implied": "a limit amount stands for the price it implies in the convention of the pair",
    "price": "the price compared and reported is the ratio of the totals of the final route, quote tokens per base token",
    "exclusive": "a request with both a limit price and a limit amount is rejected before any order or record changes",
    "nolimit": "without a limit the trade executes iff requested and records no limit outcome",
}
EXEC = sym("EXEC")


def met(r, side, P, L):
    """limit met from the trader's side: `side` is the token the trader receives"""
    b = r.field(r.PAIR, "tknb")
    return LE(P, L) if side is b else LE(L, P)


def other_of(r, side):
    b, q = r.field(r.PAIR, "tknb"), r.field(r.PAIR, "tknq")
    return q if side is b else b


def one(ck, mode, d, kind, v=""):
    name = f"{mode}/{d}/{kind}{v}"
    lp, la = sym("LP") if kind != "zero" else const(0), sym("LA")
    r = variant(v, mode, d, {"execute": EXEC, "limit_price": lp if kind in ("limit_price", "zero") else NONE,
                             "limit_amt": la if kind == "limit_amt" else NONE},
                 [LT(const(0), sym("AMT")), NOT(EQ(lp, NONE)), NOT(EQ(la, NONE)), LT(const(0), la)] + ([LT(const(0), lp)] if kind != "zero" else []))
    ck.absorb(r.I)
    row, tot = r.route_row(), r.total_row()
    if not r.router_call() or row is None or tot is None:
        return ck.undecided("record", name, "trade log rows not recognised")
    C = r.canon(positive=[r.AMT, la] + ([lp] if kind != "zero" else []))
    b = r.field(r.PAIR, "tknb")
    for side, distinct in pair_cases(r):
        # `side` is the token of the request; the trader receives the sold token of the AMM
        got = side if d == "amm_sells" else other_of(r, side)
        mp = {r.TKN: side}
        S = lambda t: subst(t, mp)
        tag = f"{name}/{'base' if side is b else 'quote'}"
        for which, (e, cols) in (("route", row), ("total", tot)):
            if not all(k in cols for k in ("exec", "limitfail", "price")):
                ck.undecided("record", f"{tag}/{which}", "columns missing")
                continue
            P = S(cols["price"])
            G = AND(S(e.guard), distinct, r.facts)
            if kind == "none":
                price(ck, r, d, S, tag + "/" + which, side, got, G, P, tot, e)
                ck.decide(AND3(boolsame(C, S(cols["exec"]), EXEC, G), same3(C, S(cols["limitfail"]), NONE, G)),
                          "nolimit", f"{tag}/{which}", f"exec={brief(S(cols['exec']), 120)} limitfail={brief(S(cols['limitfail']), 120)}", e.where)
                continue
            L = lp
            if kind == "limit_amt":
                L = arith("div", la, r.AMT) if side is b else arith("div", r.AMT, la)
            M = met(r, got, P, L)
            rule = "implied" if kind == "limit_amt" else "record"
            ck.decide(boolsame(C, S(cols["exec"]), AND(truth(EXEC), M), G), rule, f"{tag}/{which}/exec",
                      f"executed marked as {brief(S(cols['exec']), 400)}", e.where)
            ck.decide(boolsame(C, S(cols["limitfail"]), NOT(M), G), rule, f"{tag}/{which}/limitfail",
                      f"limit failure marked as {brief(S(cols['limitfail']), 400)}", e.where)
            if which == "route":
                for x in r.order_effects():
                    g = AND(S(x.guard), distinct, r.facts)
                    ck.decide(imp3(C, g, AND(truth(EXEC), M)), "gate", f"{tag}/{x.kind}/{x.key if isinstance(x.key, str) else 'item'}",
                              f"write guarded by {brief(S(x.guard), 400)}", x.where)
                ws = [x for x in r.order_effects() if x.kind == "setattr"]
                if ws:
                    g = OR(*[S(x.guard) for x in ws])
                    ck.decide(imp3(C, AND(G, truth(EXEC), M), g), "reach", tag, "met and requested trade is not settled", e.where)


def price(ck, r, d, S, name, side, got, G, P, tot, e):
    from checks.c03 import which_total
    C = Canon(r.I, approx_ident={"round"})
    last = ITEM(r.router_call()[0], const(-1))
    sold, bought = (which_total(C, r, tot[1][c], last) for c in ("amt1", "amt2"))
    if sold is None or bought is None:
        return ck.undecided("price", name, "total amounts not recognised")
    so, bo = S(ATTR(last, "total_" + sold)), S(ATTR(last, "total_" + bought))
    # `got` is the token sold by the AMM; the price is quoted per base token
    ratio = arith("div", bo, so) if got is r.field(r.PAIR, "tknb") else arith("div", so, bo)
    v = [same3(C, P, x, G) for x in (ratio, NEG(ratio), mk("call", "abs", ratio))]
    ck.decide(True if True in v else None if None in v else False, "price", name, f"price reported is {short(r, P)}", e.where)


def AND3(*v):
    return False if False in v else None if None in v else True


def boolsame(C, a, b, assume):
    """equality of truth values"""
    x, y = truth(a), truth(b)
    return same3(C, ITE(x, TRUE, FALSE), ITE(y, TRUE, FALSE), assume)


def both(ck, mode, d):
    name = f"{mode}/{d}"
    lp, la = sym("LP"), sym("LA")
    r = TradeRun(mode, d, {"execute": EXEC, "limit_price": lp, "limit_amt": la},
                 [LT(const(0), sym("AMT")), NOT(EQ(lp, NONE)), NOT(EQ(la, NONE)), NOT(EQ(la, const(0)))])
    ck.absorb(r.I)
    es = r.order_effects()
    for e in es + [x for x, _ in r.rows()]:
        ck.bad("exclusive", f"{name}:{e.fn}:{e.kind}", "a request with both limits reaches " + e.kind, e.where)
    raised = [e for e in r.effects if e.kind == "raise"]
    ck.decide(bool(raised) or r.dead, "exclusive", name, "a request with both limits is not rejected", "")


def main():
    ck = Check("C02", "a trade whose limit is not met is never executed", RULES, floor=20, assumptions=[
        "the traded token is one of the two distinct tokens of the pair",
        "prices are compared as reported, after the configured rounding"])
    for m in MODES:
        for d in DIRS:
            for v in VARIANTS:
                for k in ("limit_price", "limit_amt", "none", "zero"):
                    guarded(ck, "record", f"{m}/{d}/{k}{v}", lambda: one(ck, m, d, k, v))
            guarded(ck, "exclusive", f"{m}/{d}", lambda: both(ck, m, d))
    return ck.finish()
