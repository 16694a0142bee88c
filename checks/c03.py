from checks.trade import *

RULES = {
    "debit": "the order that sells loses exactly the sold amount logged for the route, once",
    "credit": "the linked order gains exactly the bought amount logged for the route, once, unless the order is linked to itself",
    "capacity": "capacity changes only on a credited order that exceeds it, to its new balance",
    "only": "no other write reaches any order or the order book during a trade",
    "aggregate": "the aggregate row reports the totals of the final route in the same columns",
}


def check_run(ck, mode, d, v=""):
    name = f"{mode}/{d}{v}"
    r = variant(v, mode, d, {"limit_price": NONE, "limit_amt": NONE, "execute": TRUE}, [NN])
    ck.absorb(r.I)
    call, row = r.router_call(), r.route_row()
    if not call or not row or call[2] is None:
        for rule in ("debit", "credit", "capacity", "only"):
            ck.undecided(rule, name, "matcher call or route row of the trade log not recognised")
        return
    R, a, offered = call
    e0, cols = row
    C = r.canon()
    I = r.I
    fld = lambda b, n: r.field(b, n)
    elem = mk("elem", R)
    if e0.loops != (R,):
        ck.undecided("debit", name, "settlement loop does not range over the routes of the matcher call")
        return
    idx = fld(elem, "index")
    quoted = ITEM(offered, idx)
    seller = ITEM(r.ORDERS, fld(quoted, "id"))
    link = fld(seller, "linked_to_id")
    linked = ITEM(r.ORDERS, link)
    lid = fld(seller, "id")
    effs = r.order_effects()
    G = e0.guard
    ykey = fld(seller, "y").args[1] if fld(seller, "y").op == "attr" else None
    ikey = fld(seller, "y_int").args[1] if fld(seller, "y_int").op == "attr" else None
    if ykey is None or ikey is None:
        ck.undecided("debit", name, "order balance is not a plain field")
        return
    isS = lambda b: C.canon(b) is C.canon(seller)
    isL = lambda b: C.canon(b) is C.canon(linked)
    amt1, amt2 = cols.get("amt1"), cols.get("amt2")
    tkn1, tkn2 = cols.get("tkn1"), cols.get("tkn2")
    self_linked = EQ(link, lid)

    def debit():
        got = final_value(effs, isS, ykey, ATTR(seller, ykey))
        want = SUB(ATTR(seller, ykey), amt1)
        ck.decide(same3(C, got, want, G), "debit", name,
                  f"balance of the selling order becomes {short(r, got)}; logged sold amount is {short(r, amt1)}", e0.where)

    def credit():
        got = final_value(effs, isL, ykey, ATTR(linked, ykey))
        want = ITE(self_linked, ATTR(linked, ykey), arith("add", ATTR(linked, ykey), amt2))
        ck.decide(same3(C, got, want, G), "credit", name,
                  f"balance of the linked order becomes {short(r, got)}; logged bought amount is {short(r, amt2)}", e0.where)

    def capacity():
        newy = arith("add", ATTR(linked, ykey), amt2)
        got = final_value(effs, isL, ikey, ATTR(linked, ikey))
        want = ITE(AND(NOT(self_linked), LT(ATTR(linked, ikey), newy)), newy, ATTR(linked, ikey))
        v = same3(C, got, want, G)
        # the capacity of the selling order must not move
        ks = [e for e in effs if e.kind == "setattr" and e.key == ikey and isS(e.base)]
        if ks and v is True:
            v = False
            got = ks[0].value
        ck.decide(v, "capacity", name, f"capacity of the linked order becomes {short(r, got)}", e0.where)

    def only():
        for e in effs:
            if e.kind == "setattr" and e.key in (ykey, ikey) and (isS(e.base) or isL(e.base)):
                if e.loops and e.loops != (R,):
                    ck.undecided("only", f"{name}:{e.fn}:{e.key}", "nested loop")
                continue
            if unknown(C, e.base):
                ck.undecided("only", f"{name}:{e.fn}:{e.key}", f"write to {short(r, e.base)}")
                continue
            k = e.key if isinstance(e.key, str) else short(r, e.key)
            ck.bad("only", f"{name}:{e.fn}:{e.kind}:{k}", f"{e.kind} of {k} on {short(r, e.base)} during a trade", e.where)
        ck.ok("only", name, f"{len(effs)} writes to orders examined")

    def columns():
        res = []
        for side, distinct in pair_cases(r):
            mp = {r.TKN: side}
            for got, want in ((tkn1, out_tkn(r, d)), (tkn2, in_tkn(r, d))):
                res.append(same3(C, subst(got, mp), subst(want, mp), distinct))
        ck.decide(AND_(*res), "debit", name + ":tokens",
                  f"logged sold/bought tokens are {short(r, tkn1)} / {short(r, tkn2)}", e0.where)

    def aggregate():
        t = r.total_row()
        if t is None:
            return ck.undecided("aggregate", name, "aggregate row not recognised")
        e1, ct = t
        last = ITEM(R, const(-1))
        # the totals of the last route are the cumulative outputs/inputs of the route list
        swap = {}
        for c1, c2 in (("amt1", "output"), ("amt2", "input")):
            f1 = which(C, r, cols[c1], elem)
            f2 = which_total(C, r, ct[c1], last)
            ck.decide(None if f1 is None or f2 is None else f1 == f2, "aggregate", f"{name}:{c1}",
                      f"route row reports the route's {f1}, aggregate row the total {f2}", e1.where)
    for rule, fn in (("debit", debit), ("debit", columns), ("credit", credit), ("capacity", capacity), ("only", only), ("aggregate", aggregate)):
        guarded(ck, rule, name, fn)


def AND_(*v):
    return False if False in v else None if None in v else True


def out_tkn(r, d):
    return r.eval(r.PAIR, "other", r.TKN) if d == "amm_buys" else r.TKN


def in_tkn(r, d):
    return r.TKN if d == "amm_buys" else r.eval(r.PAIR, "other", r.TKN)


def which(C, r, t, elem):
    deps = C.deps(C.canon(t))
    out = {n for n in ("input", "output") if mk("attr", C.canon(elem), n) in deps or mk("attr", elem, n) in deps}
    return out.pop() if len(out) == 1 else None


def which_total(C, r, t, last):
    deps = C.deps(C.canon(t))
    out = {x.args[1][6:] for x in deps if x.op == "attr" and x.args[1] in ("total_input", "total_output")}
    return out.pop() if len(out) == 1 else None


def main():
    ck = Check("C03", "executed trades move exactly the logged amounts", RULES, floor=10, assumptions=[
        "each stored order is filed under its own id (decided by C08)",
        "a matcher call returns routes and does not modify orders (decided by C10)",
        "token names are upper case, as the pair constructor makes them"])
    for m in MODES:
        for d in DIRS:
            for v in VARIANTS:
                guarded(ck, "debit", f"{m}/{d}{v}", lambda: check_run(ck, m, d, v))
    return ck.finish()
