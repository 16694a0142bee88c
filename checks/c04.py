from checks.trade import *
from checks.c03 import out_tkn

RULES = {
    "offered": "the list handed to the matcher is exactly the eligible orders of the book (pair in either direction, selling the token, enabled, positive balance)",
    "restricted": "with a position restriction, exactly the eligible orders among the given positions are handed to the matcher",
    "settled": "every route is settled against the order it was quoted on",
}


def one(ck, mode, d, v):
    restricted = v == "/positions"
    rule = "restricted" if restricted else "offered"
    name = f"{mode}/{d}{v}"
    r = variant(v, mode, d, {"limit_price": NONE, "limit_amt": NONE, "execute": TRUE}, [NN])
    ck.absorb(r.I)
    call = r.router_call()
    if not call or call[2] is None:
        return ck.undecided(rule, name, "list of orders handed to the matcher not recognised")
    R, a, offered = call
    C = r.canon(positive=[r.AMT])
    where = r.calls[0].where
    if offered.op != "list" or len(offered.args) != 1 or offered.args[0].op != "seg":
        if unknown(C, offered):
            return ck.undecided(rule, name, "offered orders are " + brief(offered, 300))
        return ck.undecided(rule, name, "offered orders do not have the form of a selection: " + brief(offered, 300))
    val, cond, doms = offered.args[0].args
    O = r.ORDERS
    doms = list(doms.args) if doms.op in ("tuple", "loops") else [doms]
    k = mk("elem", O)
    if doms != [O]:
        return ck.undecided(rule, name, "selection ranges over " + brief(mk("tuple", *doms), 200))
    o = ITEM(O, k)
    f = lambda n: r.field(o, n)
    isos = [r.path(r.PAIR, "pair_iso"), r.path(r.PAIR, "reverse", "pair_iso")]
    g = AND(r.facts, r.calls[0].guard)
    for side, distinct in pair_cases(r):
        mp = {r.TKN: side}
        S = lambda t: subst(t, mp)
        tok = S(out_tkn(r, d))
        want = AND(LT(const(0), f("y")), OR(*[EQ(f("pair_name"), i) for i in isos]), EQ(f("tkn"), tok), NOT(truth(f("disabled"))))
        if restricted:
            want = AND(want, IN(k, POS))
        tag = f"{name}/{'base' if side is r.field(r.PAIR, 'tknb') else 'quote'}"
        G = AND(S(g), distinct)
        v = same3(C, S(val), o)
        ck.decide(v, rule, tag + "/element", f"an offered element is {brief(S(val), 300)}", where)
        v = same3(C, ITE(S(cond), TRUE, FALSE), ITE(want, TRUE, FALSE), G)
        ck.decide(v, rule, tag, f"orders offered are those with {brief(S(cond), 400)}", where)
    idx = r.field(mk("elem", R), "index")
    seller = ITEM(O, r.field(ITEM(offered, idx), "id"))
    link = ITEM(O, r.field(seller, "linked_to_id"))
    for e in r.order_effects():
        if e.kind != "setattr":
            continue
        if unknown(C, e.base):
            ck.undecided("settled", f"{name}:{e.key}", brief(e.base, 200))
            continue
        v = same3(C, e.base, seller), same3(C, e.base, link)
        okb = True if True in v else None if None in v else False
        ck.decide(okb, "settled", f"{name}:{e.key}", f"route settled against {short(r, e.base)}", e.where)


def main():
    ck = Check("C04", "only eligible orders are offered to the matcher", RULES, floor=10, assumptions=[
        "each stored order is filed under its own id (decided by C08)",
        "the traded token is one of the two distinct tokens of the pair"])
    for m in MODES:
        for d in DIRS:
            for v in VARIANTS:
                guarded(ck, "offered", f"{m}/{d}{v}", lambda: one(ck, m, d, v))
    return ck.finish()
