from checks.trade import *
from checks.c05 import LIMITS, OPTS

RULES = {
    "creation": "no order is stored, removed or changed on a path on which the creation request is rejected",
    "trade": "no order is stored, removed or changed on a path on which the trade request is rejected",
    "matched": "no order is stored, removed or changed before the matcher has accepted the trade",
    "rejects": "the request is rejected on the documented conditions",
}


def conflict(ck, rule, name, C, effs, writes, facts):
    raises = [e for e in effs if e.kind == "raise" and not e.handler]
    n = 0
    for w in writes:
        for r in raises:
            if r.seq is None or w.seq is None:
                continue
            shared = [l for l in w.loops or () if l in (r.loops or ())]
            if r.seq < w.seq and not shared:
                continue
            n += 1
            g = AND(facts, w.guard, r.guard)
            if C.unsat(g):
                continue
            k = w.key if isinstance(w.key, str) else "entry"
            if unknown(C, g) and not C.implies(AND(facts, w.guard), r.guard):
                ck.undecided(rule, f"{name}:{w.fn}:{k}/{r.fn}", "path condition not recognised")
                continue
            ck.bad(rule, f"{name}:{w.fn}:{k} then {r.fn}", f"{w.kind} of {k} (line {w.line}) is done although the request can still be rejected at {r.where}: {brief(r.value, 120) if r.value is not None else ''}", w.where)
    ck.ok(rule, name, f"{len(writes)} writes, {len(raises)} rejections, {n} ordered pairs")


G1 = ("amt_sell", "psell_start", "psell_end", "amt_buy", "pbuy_start", "pbuy_end", "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy", "carbon_id")


def creation(ck, roe):
    for meth, names in (("add_strategy", G1), ("add_order", ("amt", "p_start", "p_end", "p_marginal", "y_int"))):
        for side in ("base", "other"):
            name = f"{meth}/{side}/{'raise' if roe is TRUE else 'report'}"
            tkn = sym("TKN") if side == "other" else "base"
            a = AddRun(meth, tkn if side == "base" else tkn, {n: sym(n.upper()) for n in names}, ctor={**SETUP, "raiseonerror": roe}, numeric=False)
            ck.absorb(a.I)
            C = a.canon()
            w = a.order_effects()
            if not w:
                ck.undecided("creation", name, "no store found")
                continue
            guarded(ck, "creation", name, lambda: conflict(ck, "creation", name, C, a.effects, w, a.facts))
    # unrelated token: always rejected
    a = AddRun("add_strategy", sym("TKN"), {n: sym(n.upper()) for n in G1}, ctor={**SETUP, "raiseonerror": roe}, numeric=False,
               facts=())
    C = a.canon()
    strange = AND(NOT(EQ(a.TKN, a.tkn["base"])), NOT(EQ(a.TKN, a.tkn["quote"])))
    for e in a.order_effects():
        v = C.unsat(AND(a.facts, strange, e.guard))
        ck.decide(v, "rejects", "add_strategy/token not of the pair", f"stored when {brief(e.guard, 300)}", e.where)
    # both a marginal price and a capacity
    for x, y in (("psell_marginal", "y_int_sell"), ("pbuy_marginal", "y_int_buy")):
        both = AND(NOT(EQ(sym(x.upper()), NONE)), NOT(EQ(sym(y.upper()), NONE)))
        for e in a.order_effects():
            v = C.unsat(AND(a.facts, both, NOT(strange), e.guard))
            ck.decide(v, "rejects", f"add_strategy/{x} and {y}", f"stored when {brief(e.guard, 300)}", e.where)
    for s, t in (("psell_start", "psell_end"), ("pbuy_start", "pbuy_end")):
        for u, w in ((s, t), (t, s)):
            half = AND(EQ(sym(u.upper()), NONE), NOT(EQ(sym(w.upper()), NONE)))
            for e in a.order_effects():
                v = C.unsat(AND(a.facts, half, NOT(strange), e.guard))
                ck.decide(v, "rejects", f"add_strategy/{u} missing", f"stored when {brief(e.guard, 300)}", e.where)
    for amt, y in (("amt_sell", "y_int_sell"), ("amt_buy", "y_int_buy")):
        A, Y = sym(amt.upper()), sym(y.upper())
        small = AND(NOT(EQ(A, NONE)), NOT(EQ(Y, NONE)), LT(Y, A))
        for e in a.order_effects():
            v = C.unsat(AND(a.facts, small, NOT(strange), e.guard))
            ck.decide(v, "rejects", f"add_strategy/{y} below {amt}", f"stored when {brief(e.guard, 300)}", e.where)


def trade(ck, mode, d, roe):
    for lim, opts in list(LIMITS.items()) + [("both", {"limit_price": sym("LP"), "limit_amt": sym("LA")})]:
        name = f"{mode}/{d}/{lim}/{'raise' if roe is TRUE else 'report'}"
        a = dict(OPTS)
        a.update(opts)
        r = TradeRun(mode, d, a, [NN] + [NOT(EQ(v, NONE)) for v in opts.values() if v is not NONE and lim != "both"], raiseonerror=roe, ctor=SETUP)
        ck.absorb(r.I)
        C = r.canon(positive=[r.AMT])
        w = r.order_effects()
        if not w and lim != "both":
            ck.undecided("trade", name, "no settlement found")
            continue
        guarded(ck, "trade", name, lambda: conflict(ck, "trade", name, C, r.effects, w, r.facts))
        for e in w:
            if r.calls and e.seq is not None and r.calls[0].seq is not None:
                ck.decide(e.seq > r.calls[0].seq, "matched", f"{name}:{e.key if isinstance(e.key, str) else 'entry'}", "order changed before the matcher was asked", e.where)
        tok = r.field(r.PAIR, "tknb"), r.field(r.PAIR, "tknq")
        strange = AND(NOT(EQ(r.TKN, tok[0])), NOT(EQ(r.TKN, tok[1])), NOT(EQ(tok[0], NONE)), NOT(EQ(tok[1], NONE)))
        for e in w:
            both = AND(NOT(EQ(sym("LP"), NONE)), NOT(EQ(sym("LA"), NONE)))
            if lim == "both":
                ck.decide(C.unsat(AND(r.facts, both, e.guard)), "rejects", f"{name}:both limits", f"settled when {short(r, e.guard)}", e.where)
            ck.decide(C.unsat(AND(r.facts, NOT(truth(OPTS["inpair"])), e.guard)), "rejects", f"{name}:cross-pair", f"settled when {short(r, e.guard)}", e.where)


def main():
    ck = Check("C07", "a rejected request leaves the order book unchanged", RULES, floor=60, assumptions=[
        "rejections are raise and assert statements of the project and failures of the matcher; failures inside external libraries are not modelled"])
    for roe in (TRUE, FALSE):
        guarded(ck, "creation", "add", lambda: creation(ck, roe))
        for m in MODES:
            for d in DIRS:
                guarded(ck, "trade", f"{m}/{d}", lambda: trade(ck, m, d, roe))
    return ck.finish()
