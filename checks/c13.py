from checks.view import *

RULES = {
    "order": "an order created from prices or from curve parameters has the square-root end prices as parameters, lower price first",
    "capacity": "the capacity of an order is the given one, or the one at which its marginal price is the given one, or its balance",
    "view": "an order view created from prices, width or parameters has the curve parameters of those prices, and reproduces them",
    "agree": "an order and the view made from it describe the same curve",
    "reject": "ill-formed balances, capacities and tokens are rejected by the constructors that check them",
    "strategy": "orders added to the book describe the curve of the requested price range",
}
H, L, W, X1 = sym("h"), sym("l"), sym("w"), sym("XI")
PM = sym("m")


def four(f, t):
    return f.spec("t*t*t*t", t=t)


def attr(f, o, obj, name, *args):
    """member of an object in the state an evaluation left"""
    v = o.I.getattr(obj, name, o.st, None)
    if v.op in ("bound", "func"):
        v = o.I.apply(v, list(args), {}, o.st, None)
    return o.I.freeze(v, o.st)


class J:
    """judgements about one constructed object"""

    def __init__(self, ck, f, out, name, ref=None):
        self.ck, self.f, self.out, self.name, self.ref = ck, f, out, name, ref
        self.g = AND(out.facts, out.live)

    def made(self, rule):
        if self.out.dead:
            self.ck.bad(rule, self.name, "the constructor always fails")
            return False
        lv = imp3(self.f.canon(), self.out.facts, self.out.live)
        self.ck.decide(lv, rule, f"{self.name}: accepted", f"rejected when not {brief(self.out.live, 200)}", self.f.where(self.out))
        return True

    def eq(self, rule, what, want, got=None):
        try:
            if got is None:
                got = attr(self.f, self.out, self.ref, what)
            v = self.f.same(got, want, self.g)
        except (Dead, Undecided, Budget) as e:
            return self.ck.undecided(rule, f"{self.name}: {what}", str(e))
        self.ck.decide(v, rule, f"{self.name}: {what}", f"is {self.f.nice(self.f.canon().prune(got, self.g))} instead of {self.f.nice(want)}", self.f.where(self.out))


def make(f, qual, **kw):
    """constructor call; (outcome, object)"""
    I = f.I
    st = f.state()
    I.effects = []
    I.limits.clear()
    dead, v = False, NONE
    try:
        mod, _, name = qual.rpartition(".")
        c, _, m = name.partition(":")
        fn = I.from_lookup(I.p.lookup(mod, c), c, st)
        if m:
            fn = I.getattr(fn, m, st, None)
        v = I.apply(fn, [], kw, st, None)
    except Dead:
        dead = True
    f.ck.absorb(I)
    o = Out(I, st, v, AND(*st.guard) if st.guard else TRUE, AND(*f.facts), dead)
    return o, v


def ctx(ck, pos, nonneg=(), extra=()):
    f = F(ck, positive=list(pos))
    f.nonneg = list(nonneg)
    f.fact(*[LT(const(0), p) for p in pos], *[LE(const(0), p) for p in nonneg], *[NOT(EQ(p, NONE)) for p in list(pos) + list(nonneg)], *extra)
    return f


ORDER = "carbon.order.Order"
UI = "carbon.carbon_order_ui.CarbonOrderUI"


def orders(ck):
    for nm, swap, adj in (("prices", False, False), ("prices reversed", True, False), ("equal prices", False, True)):
        f = ctx(ck, [L, W, Z], [Y], [LE(Y, Z)])
        h = L if adj else arith("add", L, W)
        lo, hi = four(f, L), four(f, h)
        a, b = (lo, hi) if swap else (hi, lo)
        o, r = make(f, ORDER, p_high=a, p_low=b, _y=Y, y_int=Z, tkn=const("AAA"), id=sym("ID"), linked_to_id=sym("LID"))
        j = J(ck, f, o, nm, r)
        if not j.made("order"):
            continue
        j.eq("order", "p_low", lo)
        j.eq("order", "p_high", hi)
        j.eq("order", "B", f.spec("l*l", l=L))
        j.eq("order", "S", f.spec("h*h-l*l", h=h, l=L))
        j.eq("order", "adj_n_mode", const(adj))
        j.eq("order", "y", Y)
        j.eq("capacity", "y_int", Z)
        j.eq("capacity", "D", Z)
        j.eq("order", "id", sym("ID"))
        j.eq("order", "linked_to_id", sym("LID"))
        j.eq("order", "p", f.spec("h*h*l*l", h=h, l=L))
        if not adj:
            j.eq("order", "n", f.spec("1-l/h", h=h, l=L))
    # curve parameters
    for rev in (False, True):
        f = ctx(ck, [B, S, Z], [Y], [LE(Y, Z)])
        o, r = make(f, ORDER, B=B, S=S, _y=Y, y_int=Z, _reverseq=const(rev), tkn=const("AAA"))
        j = J(ck, f, o, "parameters" + (", reversed" if rev else ""), r)
        if not j.made("order"):
            continue
        b2, s2 = f.spec("B*B", B=B), f.spec("(B+S)**2", B=B, S=S)
        inv = lambda t: arith("div", const(1), t)
        j.eq("order", "p_low", inv(s2) if rev else b2)
        j.eq("order", "p_high", inv(b2) if rev else s2)
        j.eq("order", "B", B)
        j.eq("order", "S", S)
        j.eq("capacity", "y_int", Z)
        j.eq("capacity", "D", Z)
    # capacity
    f = ctx(ck, [L, W, Z], [Y])
    h = arith("add", L, W)
    o, r = make(f, ORDER, p_high=four(f, h), p_low=four(f, L), _y=Y, tkn=const("AAA"))
    j = J(ck, f, o, "no capacity given", r)
    if j.made("capacity"):
        j.eq("capacity", "y_int", Y)
        j.eq("capacity", "D", Y)
    o, r = make(f, ORDER, p_high=four(f, h), p_low=four(f, L), _y=Y, D=Z, tkn=const("AAA"))
    j = J(ck, f, o, "capacity given as D", r)
    if j.made("capacity"):
        j.eq("capacity", "y_int", Z)
        j.eq("capacity", "D", Z)
    o, r = make(f, ORDER, p_high=four(f, h), p_low=four(f, L), _y=Y, D=sym("D_"), y_int=Z, tkn=const("AAA"))
    j = J(ck, f, o, "capacity given as D and y_int", r)
    if j.made("capacity"):
        j.eq("capacity", "y_int", Z)
        j.eq("capacity", "D", Z)
    # balances and defaults
    for nm, kw in (("prices", dict(p_high=four(f, h), p_low=four(f, L))), ("parameters", dict(B=W, S=L))):
        for cap in ("y_int", "D", None):
            o, r = make(f, ORDER, _y=Y, tkn=const("AAA"), **kw, **({cap: Z} if cap else {}))
            j = J(ck, f, o, f"{nm}, capacity as {cap}", r)
            if not j.made("capacity"):
                continue
            for what, want in (("y", Y), ("C", Y), ("y_int", Z if cap else Y), ("D", Z if cap else Y), ("id", const(0)), ("linked_to_id", const(0)), ("disabled", FALSE), ("reverseq", FALSE), ("carbon_id", NONE), ("pair_name", NONE),
                               ("tkn", const("AAA")), ("adj_n_mode", FALSE), ("p_low", four(f, L) if nm == "prices" else f.spec("w*w", w=W)), ("p_high", four(f, h) if nm == "prices" else f.spec("(w+l)**2", w=W, l=L))):
                if what != "C" or not cap:
                    j.eq("capacity", what, want)
            for what, src in (("y", Y), *([("y_int", Z)] if cap == "y_int" else []), *([("p_low", kw["p_low"]), ("p_high", kw["p_high"])] if nm == "prices" else [("B", W), ("S", L)])):
                if what in ("B", "S") or cap == "y_int":
                    # a number given as float, int or text is stored as a decimal number
                    got = attr(f, o, r, what)
                    ck.decide(True if got.op == "Decimal" or got.op == "call" and "Decimal" in str(got.args[0]) else False if got is o.I.freeze(src, o.st) else None, "order",
                              f"{nm}, capacity as {cap}: {what} becomes a decimal number", "stored as given", f.where(o))
            for what, v in (("y", sym("V")), ("C", arith("add", const(1), Z)), ("reverseq", TRUE)):
                o.I.setattr(r, what, v, o.st, None)
                j.eq("order", what, v)
        o, r = make(f, ORDER, tkn=const("AAA"), y_int=Z, **kw)
        ck.decide(o.dead or None, "order", f"{nm} without a balance: rejected", "accepted", "")
    for nm, kw in (("no prices", {}), ("only the high price", dict(p_high=W)), ("only the low price", dict(p_low=L)), ("only B", dict(B=L)), ("only S", dict(S=L))):
        o, r = make(f, ORDER, tkn=const("AAA"), _y=Y, y_int=Z, **kw)
        ck.decide(True if o.dead or o.live is FALSE else None if o.live is not TRUE else False, "order", f"{nm}: rejected", "accepted", "")
    for rev in (False, True):
        o, r = make(f, ORDER, B=W, S=const(0), _y=Y, y_int=Z, _reverseq=const(rev), tkn=const("AAA"))
        j = J(ck, f, o, "one price as parameters" + (", reversed" if rev else ""), r)
        if j.made("order"):
            w2 = f.spec("1/(w*w)" if rev else "w*w", w=W)
            j.eq("order", "p_low", w2)
            j.eq("order", "p_high", w2)
            j.eq("order", "adj_n_mode", TRUE)
    # marginal price m between l and h
    W2 = sym("w2")
    f = ctx(ck, [L, W, W2, Y])
    m = arith("add", L, W)
    h = arith("add", m, W2)
    o, r = make(f, ORDER, p_high=four(f, h), p_low=four(f, L), _y=Y, p_marginal=four(f, m), tkn=const("AAA"), pair=const(PAIR))
    j = J(ck, f, o, "marginal price", r)
    if j.made("capacity"):
        j.eq("capacity", "y_int", f.spec("y*(h*h-l*l)/(m*m-l*l)", y=Y, h=h, l=L, m=m))
        for side in CASES:
            o2, u = make(f, UI + ":from_BSy", pair=const(PAIR), tkn=const(CASES[side]), B=attr(f, o, r, "B"), S=attr(f, o, r, "S"), yint=attr(f, o, r, "y_int"), y=Y)
            j2 = J(ck, f, o2, f"marginal price [{side}]", u)
            if j2.made("capacity"):
                j2.eq("capacity", "p_marg", price(f, four(f, m), side))


def both(ck, side):
    """an order and the view made from it"""
    # capacity above one unit, balance below the capacity
    U, RM = sym("U"), sym("RM")
    z = arith("add", arith("add", arith("add", Y, RM), U), const(1))
    f = ctx(ck, [L, W, U], [Y, RM])
    h = arith("add", L, W)
    o, r = make(f, ORDER, p_high=four(f, h), p_low=four(f, L), _y=Y, y_int=z, tkn=const(CASES[side]), pair=f.new("CarbonPair", const(PAIR)), id=sym("ID"))
    if o.dead:
        return ck.bad("agree", f"order [{side}]", "the constructor always fails")
    f.st0 = o.st
    f.st0.guard = ()
    o2, u = make(f, UI + ":from_order", order=r)
    j = J(ck, f, o2, f"view of an order [{side}]", u)
    if not j.made("agree"):
        return
    for what, want in (("B", attr(f, o, r, "B")), ("S", attr(f, o, r, "S")), ("yint", z), ("y", Y), ("tkn", const(CASES[side])), ("id", sym("ID")), ("x", attr(f, o, r, "x")),
                       ("x0", attr(f, o, r, "x0")), ("y0", attr(f, o, r, "y0")), ("Gamma", attr(f, o, r, "n")), ("p0", price(f, attr(f, o, r, "p"), side)),
                       ("pa", price(f, attr(f, o, r, "p_high"), side)), ("pb", price(f, attr(f, o, r, "p_low"), side))):
        j.eq("agree", what, want)
    got = attr(f, o2, u, "kappa")
    G = attr(f, o, r, "n")
    j.eq("agree", "invariant", f.spec("k/(n*n)", k=attr(f, o, r, "k"), n=G), got)


def views(ck, side):
    tkn = const(CASES[side])
    n = lambda s: f"{s} [{side}]"
    # parameters
    f = ctx(ck, [B, S, Z], [Y], [LE(Y, Z)])
    hi, lo = f.spec("(B+S)**2", B=B, S=S), f.spec("B*B", B=B)
    for ctor, extra in (("", {}), (":from_BSy", {})):
        o, u = make(f, UI + ctor, pair=const(PAIR), tkn=tkn, B=B, S=S, yint=Z, y=Y)
        j = J(ck, f, o, n("parameters" + (" (constructor)" if not ctor else "")), u)
        if j.made("view"):
            for what, want in (("B", B), ("S", S), ("yint", Z), ("y", Y), ("pa_raw", hi), ("pb_raw", lo), ("pa", price(f, hi, side)), ("pb", price(f, lo, side)), ("py", price(f, hi, side)),
                               ("px", price(f, lo, side)), ("p_start", price(f, hi, side)), ("p_end", price(f, lo, side)), ("tkny", tkn),
                               ("tknx", const(CASES["quote" if side == "base" else "base"])), ("disabled", FALSE),
                               ("pmin", price(f, lo if side == "quote" else hi, side)), ("pmax", price(f, hi if side == "quote" else lo, side))):
                j.eq("view", what, want)
    # a range that ends at a price of nothing
    if side == "quote":
        f = ctx(ck, [S, Z], [Y], [LE(Y, Z)])
        o, u = make(f, UI + ":from_BSy", pair=const(PAIR), tkn=tkn, B=const(0), S=S, yint=Z, y=Y)
        j = J(ck, f, o, n("parameters, down to zero"), u)
        if j.made("view"):
            for what, want in (("disabled", FALSE), ("pa", f.spec("S*S", S=S)), ("pb", const(0)), ("pmin", const(0)), ("pmax", f.spec("S*S", S=S)), ("p_marg", f.spec("(S*y/z)**2", S=S, y=Y, z=Z))):
                j.eq("view", what, want)
    # disabled
    f = ctx(ck, [Z], [Y], [LE(Y, Z)])
    o, u = make(f, UI, pair=const(PAIR), tkn=tkn, B=const(0), S=const(0), yint=Z, y=Y)
    j = J(ck, f, o, n("disabled"), u)
    if j.made("view"):
        for what in ("pa", "pb", "pa_raw", "pb_raw", "pmin", "pmax"):
            j.eq("view", what, NONE)
        j.eq("view", "disabled", TRUE)
    # prices, in and out of order
    for swap in (False, True):
        f = ctx(ck, [L, W, Z], [Y], [LE(Y, Z)])
        h = arith("add", L, W)
        lo, hi = f.spec("l*l", l=L), f.spec("h*h", h=h)
        pa, pb = price(f, hi, side), price(f, lo, side)
        a, b = (pb, pa) if swap else (pa, pb)
        o, u = make(f, UI + ":from_prices", pair=const(PAIR), tkn=tkn, pa=a, pb=b, yint=Z, y=Y, id=sym("ID"))
        j = J(ck, f, o, n("prices" + (" reversed" if swap else "")), u)
        if j.made("view"):
            for what, want in (("B", L), ("S", W), ("pa", pa), ("pb", pb), ("yint", Z), ("y", Y), ("id", sym("ID")), ("tkn", tkn)):
                j.eq("view", what, want)
    # a position without any liquidity
    f = ctx(ck, [L, W])
    lo, hi = f.spec("l*l", l=L), f.spec("h*h", h=arith("add", L, W))
    o, u = make(f, UI + ":from_prices", pair=const(PAIR), tkn=tkn, pa=price(f, hi, side), pb=price(f, lo, side), yint=const(0), y=const(0))
    j = J(ck, f, o, n("prices, empty"), u)
    if j.made("view"):
        for what, want in (("B", L), ("S", W), ("yint", const(0)), ("y", const(0)), ("disabled", FALSE)):
            j.eq("view", what, want)
    for why, facts in (("capacity negative", [LT(Z, const(0))]), ("balance above capacity", [LT(Z, Y), LE(const(0), Z)]), ("balance negative", [LT(Y, const(0)), LT(const(0), Z)])):
        f = ctx(ck, [L, W], [], facts)
        o, u = make(f, UI + ":from_prices", pair=const(PAIR), tkn=tkn, pa=price(f, arith("add", L, W), side), pb=price(f, L, side), yint=Z, y=Y)
        f.rejects("reject", n("prices, " + why), o, none_ok=False)
    # width
    q, D1 = sym("q"), sym("d1")
    XI = sym("e")
    f = ctx(ck, [q, D1, XI, Z], [Y], [LE(Y, Z)])
    # Q = (q/(q+d1))^2 < 1 and xint = yint / e^2 make every root rational
    Q = f.spec("(q/(q+d))**2", q=q, d=D1)
    o, u = make(f, UI + ":from_Qxy", pair=const(PAIR), tkn=tkn, Q=Q, xint=f.spec("z/(e*e)", z=Z, e=XI), yint=Z, y=Y)
    j = J(ck, f, o, n("width"), u)
    if j.made("view"):
        for what, want in (("Q", Q), ("xint", f.spec("z/(e*e)", z=Z, e=XI)), ("yint", Z), ("y", Y), ("B", f.spec("e*q/(q+d)", e=XI, q=q, d=D1)),
                           ("S", f.spec("e*(q+d)/q-e*q/(q+d)", e=XI, q=q, d=D1)), ("p0", price(f, f.spec("e*e", e=XI), side)), ("tkn", tkn)):
            j.eq("view", what, want)
    for why, facts, kw in (("x capacity not positive", [LE(X1, const(0)), LT(const(0), Z), LE(Y, Z), LE(const(0), Y)], {}), ("y capacity not positive", [LE(Z, const(0)), LT(const(0), X1)], {}),
                           ("balance above capacity", [LT(Z, Y), LT(const(0), Z), LT(const(0), X1)], {}), ("balance negative", [LT(Y, const(0)), LT(const(0), Z), LT(const(0), X1)], {}),
                           ("unknown token", [LT(const(0), Z), LT(const(0), X1), LE(const(0), Y), LE(Y, Z)], {"tkn": const("CCC")})):
        f = ctx(ck, [q], [], facts)
        o, u = make(f, UI + ":from_Qxy", **dict(dict(pair=const(PAIR), tkn=tkn, Q=q, xint=X1, yint=Z, y=Y), **kw))
        f.rejects("reject", n("width, " + why), o, none_ok=False)
    f = ctx(ck, [B, S, Z, Y], [])
    o, u = make(f, UI, pair=const(PAIR), tkn=const("CCC"), B=B, S=S, yint=Z, y=Y)
    f.rejects("reject", n("parameters, unknown token"), o, none_ok=False)


def strategies(ck, side):
    """curves of the orders a strategy request files, and of their views"""
    other = "quote" if side == "base" else "base"
    L2, W2, A1, A2 = sym("l2"), sym("w2"), sym("AMT1"), sym("AMT2")
    f = ctx(ck, [L, W, L2, W2, A1, A2])
    f.I.cfg.ident_methods = {"upper"}
    sim = f.new("CarbonSimulatorUI", pair=const(PAIR), raiseonerror=TRUE)
    f.st0.guard = ()
    h, h2 = arith("add", L, W), arith("add", L2, W2)
    for swap in (False, True):
        r = {side: (four(f, h), four(f, L)), other: (four(f, h2), four(f, L2))}
        ask = {w: tuple(price(f, p, w) for p in (ps[::-1] if swap else ps)) for w, ps in r.items()}
        o = f.call(sim, "add_strategy", const(CASES[side]), A1, ask[side][0], ask[side][1], A2, ask[other][0], ask[other][1])
        nm = f"strategy{', range reversed' if swap else ''} [{side}]"
        st = [e for e in o.effects if e.kind == "setitem" and e.value.op == "obj" and e.value.args[0].endswith(".Order")]
        if o.dead or len(st) != 2:
            ck.decide(False if o.dead else None, "strategy", nm, "the request always fails" if o.dead else f"{len(st)} stores")
            continue
        for w, ps, amt in zip((side, other), ((h, L), (h2, L2)), (A1, A2)):
            es = [e for e in st if f.same(attr(f, o, e.value, "tkn"), const(CASES[w]), AND(o.facts, o.live)) is True]
            if len(es) != 1:
                ck.decide(False if not es else None, "strategy", f"{nm}: {'sell' if w == side else 'buy'} order", f"{len(es)} of the orders filed sell {CASES[w]}", st[0].where)
                continue
            e = es[0]
            j = J(ck, f, o, f"{nm}: {'sell' if w == side else 'buy'} order", e.value)
            for what, want in (("tkn", const(CASES[w])), ("B", f.spec("l*l", l=ps[1])), ("S", f.spec("h*h-l*l", h=ps[0], l=ps[1])), ("p_low", four(f, ps[1])), ("p_high", four(f, ps[0])),
                               ("y", amt), ("y_int", amt), ("D", amt)):
                j.eq("strategy", what, want)
        # the views answered with it
        views = [k for k in list(o.st.heap) if k[0].op == "obj" and k[0].args[0].endswith("CarbonOrderUI") and k[1] == "f" and k[2] == "tkn"]
        for k in views:
            t = o.st.heap[k]
            for w, ps, amt in zip((side, other), ((h, L), (h2, L2)), (A1, A2)):
                if f.same(t, const(CASES[w]), AND(o.facts, o.live)) is True:
                    j = J(ck, f, o, f"{nm}: view of the {'sell' if w == side else 'buy'} order", k[0])
                    j.eq("strategy", "pa", price(f, four(f, ps[0]), w))
                    j.eq("strategy", "pb", price(f, four(f, ps[1]), w))
                    j.eq("strategy", "y", amt)
                    j.eq("strategy", "yint", amt)


def main():
    ck = Check("C13", "order parameters define one curve however the order is specified", RULES, floor=80, assumptions=[
        "real arithmetic (rounding ignored)", "prices are positive; parametrised as fourth powers so that every root is rational"])
    guarded(ck, "order", "orders", lambda: orders(ck))
    for side in CASES:
        guarded(ck, "view", f"views [{side}]", lambda: views(ck, side))
        guarded(ck, "agree", f"agreement [{side}]", lambda: both(ck, side))
        guarded(ck, "strategy", f"strategies [{side}]", lambda: strategies(ck, side))
    return ck.finish()


if __name__ == "__main__":
    run(main)
