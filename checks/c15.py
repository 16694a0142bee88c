import ast as _ast

from checks.view import *

_KEEP = []

RULES = {
    "curve": "x(y), y(x), the intercepts and the marginal-price maps are the curve (B, S, capacity, balance) defines and are inverse to each other",
    "size": "trade sizes are differences of curve points",
    "marginal": "the marginal price is the slope of the curve at the point asked for, in the price convention of the pair",
    "effective": "the effective price is the ratio of the amounts traded",
    "endpoint": "at the full and empty points the curve meets its start and end price and its capacity",
    "bounds": "points beyond the curve are rejected",
    "trade": "an executed trade moves the balance by the amount traded, previews report the same amounts, and the linked curve receives what was bought",
    "linked": "liquidity added to a curve raises its balance, and its capacity exactly when the balance exceeds it",
    "goal": "the goal-seek helper answers the midpoint of a bracket around the root, within the precision asked for, and rejects a bracket without a sign change",
}
DX, DY, X, P = sym("DX"), sym("DY"), sym("X"), sym("PRICE")
YY = sym("YY")


def dydx_at(f, y, z=Z):
    return f.spec("(B + S*y/z)**2", B=B, S=S, y=y, z=z)


def x_of(f, y):
    return f.spec("z*(z-y)/((B*z+S*y)*(B+S))", B=B, S=S, y=y, z=Z)


def curve(ck, side):
    f = view(ck, side, positive=(B, S, Z, DX, DY, X))
    n = lambda s: f"{s} [{side}]"
    V = f.V
    f.expect("curve", n("xfromy_f"), f.call(V, "xfromy_f", YY, facts=[LE(const(0), YY), LE(YY, Z)]), x_of(f, YY), strict=True)
    f.expect("curve", n("x"), f.call(V, "x"), x_of(f, Y))
    yx = f.spec("z*(z-B*(B+S)*x)/(S*(B+S)*x+z)", B=B, S=S, x=X, z=Z)
    f.expect("curve", n("yfromx_f"), f.call(V, "yfromx_f", X, facts=[LE(const(0), X), LE(const(0), yx)]), yx, strict=True)
    f.expect("curve", n("yfromx_f unchecked"), f.call(V, "yfromx_f", X, const(False)), yx, strict=True)
    xv = f.call(V, "xfromy_f", YY, const(False))
    f.expect("curve", n("yfromx_f(xfromy_f(y)) = y"), f.call(V, "yfromx_f", xv.value, const(False)), YY)
    yv = f.call(V, "yfromx_f", X, const(False))
    f.expect("curve", n("xfromy_f(yfromx_f(x)) = x"), f.call(V, "xfromy_f", yv.value, const(False)), X)
    f.expect("endpoint", n("xint"), f.call(V, "xint"), x_of(f, const(0)))
    f.expect("endpoint", n("xfromy_f(0) = xint"), f.call(V, "xfromy_f", const(0)), f.call(V, "xint").value)
    f.expect("endpoint", n("xfromy_f(yint) = 0"), f.call(V, "xfromy_f", Z), const(0))
    f.expect("endpoint", n("yfromx_f(0) = yint"), f.call(V, "yfromx_f", const(0)), Z)
    f.expect("endpoint", n("yfromx_f(xint) = 0"), f.call(V, "yfromx_f", f.call(V, "xint").value), const(0))
    # marginal price
    at = lambda y: price(f, dydx_at(f, y), side)
    f.expect("marginal", n("p_marg"), f.call(V, "p_marg"), at(Y), strict=True)
    ok = [LE(const(0), DY), LE(DY, Y)]
    f.expect("marginal", n("p_marg_f"), f.call(V, "p_marg_f", DY, facts=ok), at(SUB(Y, DY)), strict=True)
    f.expect("marginal", n("p_marg_f fullcurve"), f.call(V, "p_marg_f", DY, const(True), facts=[LE(const(0), DY), LE(DY, Z)]), at(SUB(Z, DY)), strict=True)
    f.expect("marginal", n("p_marg_f unchecked"), f.call(V, "p_marg_f", DY, const(False), const(False)), at(SUB(Y, DY)), strict=True)
    f.expect("endpoint", n("marginal price at the full point is p_start"), f.call(V, "p_marg_f", const(0), const(True)), f.call(V, "p_start").value)
    f.expect("endpoint", n("marginal price at the empty point is p_end"), f.call(V, "p_marg_f", Z, const(True)), f.call(V, "p_end").value)
    # slope: -1/x'(y) equals dy/dx
    yp = f.spec("z*(q-B)/S", B=B, S=S, z=Z, q=sym("Q"))
    QQ = sym("Q")
    pq = price(f, arith("mul", QQ, QQ), side)
    f.positive.append(QQ)
    f.fact(LT(const(0), QQ))
    inr = [LE(B, QQ), LE(f.spec("q*q", q=QQ), f.spec("(B+S*y/z)**2", B=B, S=S, y=Y, z=Z))]
    f.expect("curve", n("yfromp_f unchecked"), f.call(V, "yfromp_f", pq, const(False)), yp, strict=True)
    f.expect("curve", n("dyfromp_f unchecked"), f.call(V, "dyfromp_f", pq, const(False)), SUB(Y, yp), strict=True)
    f.expect("curve", n("yfromp_f at the current marginal price is y"), f.call(V, "yfromp_f", f.call(V, "p_marg").value, const(False)), Y)
    f.expect("endpoint", n("yfromp_f(p_start) = yint"), f.call(V, "yfromp_f", f.call(V, "p_start").value, const(False)), Z)
    f.expect("endpoint", n("yfromp_f(p_end) = 0"), f.call(V, "yfromp_f", f.call(V, "p_end").value, const(False)), const(0))
    # sizes
    f.expect("size", n("dxfromdy_f"), f.call(V, "dxfromdy_f", DY, facts=[LE(const(0), DY), LE(DY, Y)]), SUB(x_of(f, SUB(Y, DY)), x_of(f, Y)), strict=True)
    f.expect("size", n("dxfromdy_f unchecked"), f.call(V, "dxfromdy_f", DY, const(False)), SUB(x_of(f, SUB(Y, DY)), x_of(f, Y)), strict=True)
    xnew = arith("add", x_of(f, Y), DX)
    ynew = f.spec("z*(z-B*(B+S)*x)/(S*(B+S)*x+z)", B=B, S=S, x=xnew, z=Z)
    f.expect("size", n("dyfromdx_f"), f.call(V, "dyfromdx_f", DX, facts=[LE(const(0), DX)]), SUB(Y, ynew), strict=True)
    f.expect("size", n("dyfromdx_f unchecked"), f.call(V, "dyfromdx_f", DX, const(False)), SUB(Y, ynew), strict=True)
    f.expect("size", n("dyfromdx_f(dxfromdy_f(dy)) = dy"), f.call(V, "dyfromdx_f", f.call(V, "dxfromdy_f", DY, const(False)).value, const(False)), DY)
    f.expect("size", n("dxfromdy_f(dyfromdx_f(dx)) = dx"), f.call(V, "dxfromdy_f", f.call(V, "dyfromdx_f", DX, const(False)).value, const(False)), DX)
    # effective price
    eff = arith("div", DY, f.call(V, "dxfromdy_f", DY, const(False)).value)
    okk = [LT(const(0), DY), LE(DY, Y), NOT(EQ(DY, const(0)))]
    f.expect("effective", n("p_eff_f"), f.call(V, "p_eff_f", DY, facts=okk), price(f, eff, side), strict=True)
    eff2 = arith("div", DY, SUB(x_of(f, SUB(Z, DY)), const(0)))
    f.expect("effective", n("p_eff_f fullcurve"), f.call(V, "p_eff_f", DY, const(True), facts=[LT(const(0), DY), LE(DY, Z)]), price(f, eff2, side), strict=True)
    f.expect("effective", n("p_eff_f(0) is the marginal price"), f.call(V, "p_eff_f", const(0)), at(Y), strict=True)
    # bounds
    bad = lambda nm, m, *a, facts=(), **k: f.rejects("bounds", n(nm), f.call(V, m, *a, facts=list(facts), **k))
    for m in ("dxfromdy_f", "p_marg_f", "p_eff_f"):
        bad(f"{m} dy<0", m, DY, facts=[LT(DY, const(0))])
        bad(f"{m} dy>y", m, DY, facts=[LT(Y, DY), LT(const(0), DY), LT(SUB(Y, DY), const(0))])
    bad("dyfromdx_f dx<0", "dyfromdx_f", DX, facts=[LT(DX, const(0))])
    bad("xfromy_f y<0", "xfromy_f", YY, facts=[LT(YY, const(0)), LT(YY, Z)])
    bad("xfromy_f y>yint", "xfromy_f", YY, facts=[LT(Z, YY), LT(const(0), YY)])
    bad("yfromx_f x<0", "yfromx_f", X, facts=[LT(X, const(0))])
    bad("yfromx_f x>xint", "yfromx_f", X, facts=[LT(const(0), X), LT(yx, const(0))])


def params(ck, side):
    """alternative curve parameters agree with the invariant (x-xasym)(y-yasym) = kappa"""
    n = lambda s: f"{s} [{side}]"
    # B = b^2, B+S = (b+d)^2 makes every root rational
    b, d = sym("b"), sym("d")
    g = F(ck, positive=[b, d, Z])
    h = arith("add", b, d)
    g.nonneg = [Y]
    B2, S2 = g.spec("b*b", b=b), g.spec("h*h-b*b", b=b, h=h)
    g.fact(LT(const(0), b), LT(const(0), d), LT(const(0), Z), LE(const(0), Y), LE(Y, Z), *[NOT(EQ(t, NONE)) for t in (b, d, Y, Z)])
    V = g.new("CarbonOrderUI", pair=const(PAIR), tkn=const(CASES[side]), B=B2, S=S2, yint=Z, y=Y)
    g.st0.guard = ()
    q = g.spec("b**2/h**2", b=b, h=h)
    gamma = g.spec("(h-b)/h", b=b, h=h)
    g.expect("curve", n("Q"), g.call(V, "Q"), q)
    g.expect("curve", n("Gamma"), g.call(V, "Gamma"), gamma)
    g.expect("curve", n("Q_from_Gamma"), g.call(V, "Q_from_Gamma", gamma), q)
    g.expect("curve", n("Gamma_from_Q"), g.call(V, "Gamma_from_Q", q), gamma)
    xi = g.spec("z/(b**2*h**2)", b=b, h=h, z=Z)
    g.expect("endpoint", n("xint (parameters)"), g.call(V, "xint"), xi)
    x0 = g.spec("xi*(1-G)/(2-G)", xi=xi, G=gamma)
    y0 = g.spec("z*(1-G)/(2-G)", z=Z, G=gamma)
    g.expect("curve", n("x0"), g.call(V, "x0"), x0)
    g.expect("curve", n("y0"), g.call(V, "y0"), y0)
    g.expect("curve", n("p0_raw"), g.call(V, "p0_raw"), g.spec("y0/x0", x0=x0, y0=y0))
    p0 = g.spec("b**2*h**2", b=b, h=h)
    g.expect("curve", n("p0"), g.call(V, "p0"), price(g, p0, side))
    xa, ya = g.call(V, "xasym"), g.call(V, "yasym")
    g.expect("curve", n("xasym"), xa, g.spec("x0*(1-1/G)", x0=x0, G=gamma))
    g.expect("curve", n("yasym"), ya, g.spec("y0*(1-1/G)", y0=y0, G=gamma))
    kap = g.call(V, "kappa")
    inv = g.spec("(x-xa)*(y-ya)", x=g.call(V, "xfromy_f", Y, const(False)).value, xa=xa.value, ya=ya.value, y=Y)
    g.expect("curve", n("(x-xasym)*(y-yasym) = kappa"), kap, inv)
    kb = g.call(V, "kappa_bar")
    g.expect("curve", n("kappa_bar^2 = kappa"), Out(g.I, kb.st, g.spec("k*k", k=kb.value), kb.live, kb.facts), kap.value)
    g.expect("curve", n("leverage_fctr"), g.call(V, "leverage_fctr"), g.spec("1/G", G=gamma))
    g.expect("curve", n("asym_over_0"), g.call(V, "asym_over_0", gamma), g.spec("1-1/G", G=gamma))
    g.expect("curve", n("int_over_0"), g.call(V, "int_over_0", gamma), g.spec("(2-G)/(1-G)", G=gamma))
    pa, pb = g.spec("h**4", b=b, h=h), g.spec("b**4", b=b)
    hi, lo = (price(g, pa, side), price(g, pb, side)) if side == "quote" else (price(g, pb, side), price(g, pa, side))
    g.expect("curve", n("pmin"), g.call(V, "pmin"), lo)
    g.expect("curve", n("pmax"), g.call(V, "pmax"), hi)
    g.expect("curve", n("widthr"), g.call(V, "widthr"), g.spec("h/l", h=hi, l=lo))
    g.expect("curve", n("widthpc"), g.call(V, "widthpc"), g.spec("(h-l)/p", h=hi, l=lo, p=price(g, p0, side)))
    # the constant-product curve of the order
    st = g.state()
    g.I.limits.clear()
    try:
        c = g.I.getattr(V, "as_cpc", st, None)
    except Dead:
        return ck.bad("curve", n("constant-product curve"), "as_cpc always fails")
    g.ck.absorb(g.I)
    o = Out(g.I, st, c, AND(*st.guard) if st.guard else TRUE, AND(*g.facts), False)
    pm = price(g, g.spec("(b*b+(h*h-b*b)*y/z)**2", b=b, h=h, y=Y, z=Z), side)
    end = price(g, pb, side)
    lo, hi = (end, pm) if side == "quote" else (pm, end)
    own, other = ("x", "y") if side == "base" else ("y", "x")
    gg = AND(o.facts, o.live)
    for what, want in (("p", pm), ("k", kap.value), ("p_min", lo), ("p_max", hi), (own + "_act", Y), (other + "_act", const(0)), ("pair", const(PAIR))):
        got = o.I.freeze(o.I.getattr(c, what, st, None), st)
        ck.decide(g.same(got, want, gg), "curve", n(f"constant-product curve: {what}"), f"is {g.nice(got)} instead of {g.nice(want)}", g.where(o))


def coverage(ck, side):
    """liquidity in a price range: the share of the price interval covered, of the balance"""
    n = lambda s: f"{s} [{side}]"
    E1, E2, E3 = sym("E1"), sym("E2"), sym("E3")
    f = view(ck, side, positive=(B, S, Z, E1, E2, E3))
    V = f.V
    f.fact(LT(const(0), E1), LT(const(0), E2), LT(const(0), E3))
    lo = price(f, f.spec("B*B" if side == "quote" else "(B+S)**2", B=B, S=S), side)
    hi = price(f, f.spec("(B+S)**2" if side == "quote" else "B*B", B=B, S=S), side)
    # prices inside the range: lo < p1 < p2 < hi by construction
    at = lambda a, b: f.spec("(lo*a+hi*b)/(a+b)", lo=lo, hi=hi, a=a, b=b)
    p1 = at(arith("add", E1, E2), E3)
    p2 = at(E1, arith("add", E2, E3))
    below, above = f.spec("lo*a/(a+b)", lo=lo, a=E1, b=E2), arith("add", hi, E1)
    below2, above2 = f.spec("lo*a/(a+b)", lo=below, a=E1, b=E2), arith("add", above, E2)
    share = lambda a, b: f.spec("(b-a)/(h-l)", a=a, b=b, h=hi, l=lo)
    own = const(CASES[side])
    for nm, a, b, want in (("inside", p1, p2, share(p1, p2)), ("from below", below, p2, share(lo, p2)), ("to above", p1, above, share(p1, hi)),
                           ("whole range", below, above, const(1)), ("below", below2, below, const(0)), ("above", above, above2, const(0))):
        for o, (u, v) in (("", (a, b)), (", reversed", (b, a))):
            f.expect("size", n(f"share of the liquidity {nm}{o}"), f.call(V, "liquidity_approx", u, v, asperc=const(True)), want)
            f.expect("size", n(f"liquidity {nm}{o}"), f.call(V, "liquidity_approx", u, v, own), arith("mul", Y, want))
    f.expect("size", n("total liquidity"), f.call(V, "total_liquidity"), mk("tuple", Y, own))


def final(f, o, obj, field, init):
    """value of the field after the call"""
    return o.I.freeze(o.I.getattr(obj, field, o.st, None), o.st)


def entry(o, key):
    c = o.I.content(o.value, o.st) if o.value.op == "obj" else o.value
    return ITEM(o.value if c is None else c, const(key))


def trades(ck, side, linked):
    tag = f"[{side}{', linked' if linked else ''}]"
    n = lambda s: f"{s} {tag}"
    # the balance before the trade is what is left plus what is sold
    YN = sym("YN")
    Y = arith("add", YN, DY)
    f = view(ck, side, positive=(B, S, Z, DY), y=Y)
    f.positive += [sym("LB"), sym("LS"), sym("LZ")]
    f.nonneg = [YN, sym("LY")]
    L = None
    if linked:
        LB, LS, LY, LZ = sym("LB"), sym("LS"), sym("LY"), sym("LZ")
        f.fact(LT(const(0), LB), LT(const(0), LS), LT(const(0), LZ), LE(const(0), LY), LE(LY, LZ), *[NOT(EQ(t, NONE)) for t in (LB, LS, LY, LZ)])
        L = f.new("CarbonOrderUI", pair=const(PAIR), tkn=const(CASES["quote" if side == "base" else "base"]), B=LB, S=LS, yint=LZ, y=LY)
        f.st0.heap[(f.V, "f", "linked")] = L
        f.st0.guard = ()
    eps = f.call(f.clsref("CarbonOrderUI"), "EPSILON").value
    V = f.V
    # amount bought for DY, as a positive rational; equal to the difference of the curve points
    dx = f.spec("DY*z*z/((S*(YN+DY)+B*z)*(S*YN+B*z))", DY=DY, YN=YN, B=B, S=S, z=Z)
    dy = DY
    f.expect("size", n("size of a trade"), Out(f.I, f.st0, SUB(x_of(f, YN), x_of(f, Y)), TRUE, TRUE), dx)

    def summary(name, arg, want, result):
        """the sizing functions are proved under "size"; here their results are used"""
        def ov(I, fn, args, kwargs, st, node):
            try:
                env = I.bind_args(fn, args, dict(kwargs), st, node)
            except Dead:
                return None
            if env.get("self") is not V or arg not in env:
                return None
            eq = lambda a, b: a is b or f.same(a, b, AND(*base)) is True
            if eq(I.freeze(env[arg], st), want) and eq(final(f, Out(I, st, NONE, TRUE, TRUE), V, "y", Y), Y) and eq(final(f, Out(I, st, NONE, TRUE, TRUE), V, "yint", Z), Z):
                return result
            return None
        f.I.cfg.overrides["CarbonOrderUI." + name] = ov
    summary("dyfromdx_f", "dx", dx, DY)
    summary("dxfromdy_f", "dy", DY, dx)
    base = [LE(const(0), YN), LT(const(0), DY), LT(eps, DY), LE(Y, Z), LE(YN, Z), LT(const(0), dx)]
    for m, arg in (("selly", DY), ("buyx", dx)):
        for ex in (True, False):
            o = f.call(V, m, arg, const(ex), facts=base)
            nm = n(f"{m} {'executed' if ex else 'preview'}")
            if o.dead:
                ck.bad("trade", nm, "the trade always fails")
                continue
            C = f.canon()
            g = AND(o.facts, o.live)
            ck.decide(imp3(C, o.facts, o.live), "trade", f"{nm}: accepted", f"rejected when not {brief(o.live, 200)}", f.where(o))

            def eq(what, got, want, where=""):
                v = f.same(got, want, g)
                ck.decide(v, "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(want)}", where)
            eq("balance", final(f, o, V, "y", Y), SUB(Y, dy) if ex else Y)
            eq("capacity", final(f, o, V, "yint", Z), Z)
            for k, w in (("dy", dy), ("dx", dx), ("y_old", Y), ("y", SUB(Y, dy)), ("y_int", Z), ("dx/dy", arith("div", dx, dy)), ("dy/dx", arith("div", dy, dx)),
                         ("pmarg_old", price(f, dydx_at(f, Y), side)), ("pmarg", price(f, dydx_at(f, SUB(Y, dy)), side)), ("x", x_of(f, SUB(Y, dy))),
                         ("p", price(f, arith("div", dy, dx), side)), ("executed", const(ex))):
                eq(f"result {k}", entry(o, k), w)
            if linked:
                eq("linked balance", final(f, o, L, "y", LY), arith("add", LY, dx) if ex else LY)
                eq("linked capacity", final(f, o, L, "yint", LZ), ITE(LT(LZ, arith("add", LY, dx)), arith("add", LY, dx), LZ) if ex else LZ)
    f.rejects("bounds", n("selly more than the balance"), f.call(V, "selly", DX, facts=[LT(const(0), DX), LT(eps, DX), LT(SUB(Y, DX), NEG(eps)), LT(Y, DX)]))


def to_price(ck, side):
    """trading to a target marginal price"""
    n = lambda s: f"{s} [{side}]"
    YN, E, RM = sym("YN"), sym("E"), sym("RM")
    room = arith("add", arith("add", YN, DY), RM)
    top = arith("add", arith("add", Y, E), RM)
    for case, y, z, dydx, facts, want, executed in (
            ("within range", arith("add", YN, DY), room, lambda f: dydx_at(f, YN, room), [LE(const(0), YN), LT(const(0), DY)], YN, True),
            ("beyond the start price", Y, Z, lambda f: f.spec("(B+S)**2+E", B=B, S=S, E=E), [], Y, False),
            ("beyond the marginal price", Y, top, lambda f: dydx_at(f, arith("add", Y, E), top), [], Y, False),
            ("beyond the end price", Y, Z, lambda f: f.spec("B*B*B/(B+E)", B=B, S=S, E=E), [], const(0), True)):
        f = view(ck, side, positive=(B, S, Z, DY, E), y=y, z=z)
        f.nonneg = [YN, Y, RM]
        V = f.V
        eps = f.call(f.clsref("CarbonOrderUI"), "EPSILON").value
        p = price(f, dydx(f), side)
        moved = SUB(y, want)
        base = facts + [LE(const(0), YN), LE(const(0), RM)] + [LT(const(0), E)] + ([LT(eps, moved)] if executed else [])
        for ex in (True, False):
            o = f.call(V, "tradeto", p, const(ex), facts=base)
            nm = n(f"tradeto {case}, {'executed' if ex else 'preview'}")
            if o.dead:
                ck.bad("trade", nm, "the trade always fails")
                continue
            g = AND(o.facts, o.live)
            for what, got, w in (("balance", final(f, o, V, "y", Y), want if ex else y), ("capacity", final(f, o, V, "yint", Z), z),
                                 ("result dy", entry(o, "dy"), moved), ("result y", entry(o, "y"), want), ("result y_old", entry(o, "y_old"), y),
                                 ("result pmarg", entry(o, "pmarg"), price(f, dydx_at(f, want, z), side))):
                ck.decide(f.same(got, w, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")


def buyback(ck, side):
    """buying back beyond capacity: preview and execution report the same amounts"""
    n = lambda s: f"{s} [{side}]"
    f = view(ck, side, positive=(B, S, Z, DY))
    V = f.V
    eps = f.call(f.clsref("CarbonOrderUI"), "EPSILON").value
    ny = NEG(DY)
    new = arith("add", Y, DY)
    base = [LT(const(0), DY), LT(eps, DY), LT(Z, new)]
    dx = SUB(x_of(f, new), x_of(f, Y))
    for ex in (True, False):
        o = f.call(V, "selly", ny, const(ex), facts=base, expandcurve=const(True))
        nm = n(f"selly expanding {'executed' if ex else 'preview'}")
        g = AND(o.facts, o.live)
        for what, got, want in (("result dx", entry(o, "dx"), dx), ("result dy", entry(o, "dy"), ny), ("result y", entry(o, "y"), new), ("result y_int", entry(o, "y_int"), new),
                                ("balance", final(f, o, V, "y", Y), new if ex else Y), ("capacity", final(f, o, V, "yint", Z), new if ex else Z)):
            ck.decide(f.same(got, want, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(want)}")
    f.rejects("bounds", n("selly beyond capacity without expansion"), f.call(V, "selly", ny, facts=base))
    f.rejects("bounds", n("selly negative amount not allowed"), f.call(V, "selly", ny, allowneg=const(False), facts=base))


def addliqy(ck, side):
    f = view(ck, side, positive=(B, S, Z))
    V = f.V
    A = sym("A")
    n = lambda s: f"{s} [{side}]"
    new = arith("add", Y, A)
    o = f.call(V, "addliqy", A, facts=[LE(const(0), A)])
    C = f.canon()
    g = AND(o.facts, o.live)
    for what, got, want in (("balance", final(f, o, V, "y", Y), new), ("capacity", final(f, o, V, "yint", Z), ITE(LT(Z, new), new, Z)), ("result y", entry(o, "y"), new),
                            ("result yint", entry(o, "yint"), ITE(LT(Z, new), new, Z)), ("result y_old", entry(o, "y_old"), Y), ("result yint_old", entry(o, "yint_old"), Z),
                            ("result dy", entry(o, "dy"), A), ("result pmarg_old", entry(o, "pmarg_old"), price(f, dydx_at(f, Y), side)),
                            ("result expanded", entry(o, "expanded"), ITE(LT(Z, new), const(True), const(False)))):
        ck.decide(f.same(got, want, g), "linked", n(f"addliqy: {what}"), f"is {f.nice(got)} instead of {f.nice(want)}", f.where(o))
    f.rejects("linked", n("addliqy negative amount"), f.call(V, "addliqy", A, facts=[LT(A, const(0))]), none_ok=False)
    f.rejects("linked", n("addliqy beyond capacity without expansion"), f.call(V, "addliqy", A, const(False), facts=[LE(const(0), A), LT(Z, new)]), none_ok=False)


def lam(f, src, **env):
    """a function value with the given names fixed"""
    node = _ast.parse("def spec(%s):\n    return %s\n" % (", ".join(env), src)).body[0]
    _KEEP.append(node)
    fn = f.I.mkfunc(node, next(iter(f.I.p.mods)), None, None, "spec")
    return f.I.apply(fn, list(env.values()), {}, f.st0, None)


def bisect(ck):
    """the goal-seek helper: the last midpoint of the bisection, once the bracket is within the precision"""
    a, d, e, u, v = (sym(x) for x in ("a", "d", "e", "u", "v"))
    f = F(ck, positive=[a, d, e, u, v])
    f.fact(*[LT(const(0), t) for t in (a, d, e, u, v)])
    C = f.clsref("CarbonOrderUI")
    sp = lambda s: f.spec(s, a=a, d=d, e=e, u=u, v=v)
    for nm, fun in (("rising", "lambda x: x - r"), ("falling", "lambda x: r - x"), ("steep", "lambda x: 3*(x - r)")):
        for case, root, hi, eps, want in (
                ("root in the lower half", "a+d*u/(u+v)", "a+2*d", "d/a+e", "a+d"),
                ("root in the upper half", "a+d+d*u/(u+v)", "a+2*d", "d/(a+d)+e", "a+d"),
                ("root in the lowest quarter", "a+(d+e)*u/(u+v)", "a+4*(d+e)", "(d+2*e)/a", "a+d+e"),
                ("root in the third quarter", "a+2*(d+e)+(d+e)*u/(u+v)", "a+4*(d+e)", "(d+2*e)/(a+2*(d+e))", "a+3*(d+e)")):
            g = lam(f, fun, r=sp(root))
            f.expect("goal", f"goalseek [{nm}, {case}]", f.call(C, "goalseek", g, a, sp(hi), sp(eps)), sp(want), strict=True)
        f.expect("goal", f"goalseek [{nm}, default precision]",
                 f.call(C, "goalseek", lam(f, fun, r=sp("a+a*1e-7*u*u/((u+v)*(u+v+e))")), a, sp("a+2*a*1e-7*u/(u+v)")), sp("a+a*1e-7*u/(u+v)"), strict=True)
        f.expect("goal", f"goalseek [{nm}, default precision, two steps]",
                 f.call(C, "goalseek", lam(f, fun, r=sp("a+a*1e-7*(1+u/(u+v))*e/(2*(e+d))")), a, sp("a+2*a*1e-7*(1+u/(u+v))")), sp("a+a*1e-7*(1+u/(u+v))/2"), strict=True)
        f.rejects("goal", f"goalseek [{nm}, root below]", f.call(C, "goalseek", lam(f, fun, r=a), sp("a+d"), sp("a+2*d"), e), none_ok=False)
        f.rejects("goal", f"goalseek [{nm}, root above]", f.call(C, "goalseek", lam(f, fun, r=sp("a+3*d")), a, sp("a+2*d"), e), none_ok=False)
        f.rejects("goal", f"goalseek [{nm}, reversed bracket]", f.call(C, "goalseek", lam(f, fun, r=sp("a+d")), sp("a+2*d"), a, e), none_ok=False)
        f.rejects("goal", f"goalseek [{nm}, empty bracket]", f.call(C, "goalseek", lam(f, fun, r=a), a, a, e), none_ok=False)


def special(ck, side):
    """curves without capacity, without width, without prices"""
    n = lambda s: f"{s} [{side}]"
    # no capacity: quoted at the start price
    f = view(ck, side, facts=(LT(const(0), B), LT(const(0), S)), positive=(B, S, DY), y=const(0), z=const(0))
    V = f.V
    start = price(f, f.spec("(B+S)**2", B=B, S=S), side)
    f.expect("marginal", n("p_marg of a curve without capacity"), f.call(V, "p_marg"), start, strict=True)
    f.expect("effective", n("p_eff_f of a curve without capacity"), f.call(V, "p_eff_f"), start, strict=True)
    f.expect("size", n("liquidity of a curve without capacity"), f.call(V, "total_liquidity"), mk("tuple", const(0), const(CASES[side])))
    for ex in (True, False):
        o = f.call(V, "tradeto", start, const(ex))
        nm = n(f"tradeto on a curve without capacity, {'executed' if ex else 'preview'}")
        if o.dead:
            ck.bad("trade", nm, "the trade always fails")
            continue
        g = AND(o.facts, o.live)
        for what, got, w in (("balance", final(f, o, V, "y", Y), const(0)), ("result dy", entry(o, "dy"), const(0)), ("result dx", entry(o, "dx"), const(0)), ("result executed", entry(o, "executed"), const(False))):
            ck.decide(f.same(got, w, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")
    f = view(ck, side, facts=(LT(const(0), B), LT(const(0), S), LT(const(0), Y)), positive=(B, S, Y), y=Y, z=const(0))
    f.nonneg = []
    f.rejects("bounds", n("p_marg with a balance but no capacity"), f.call(f.V, "p_marg"), none_ok=False)
    f.rejects("bounds", n("p_eff_f with a balance but no capacity"), f.call(f.V, "p_eff_f"), none_ok=False)
    # no width: one price
    f2 = F(ck, positive=[B, Z, DX, DY])
    f2.nonneg = [Y]
    f2.fact(*[LT(const(0), t) for t in (B, Z, DX, DY)], LE(const(0), Y), LE(Y, Z), *[NOT(EQ(t, NONE)) for t in (B, Y, Z)])
    V = f2.new("CarbonOrderUI", pair=const(PAIR), tkn=const(CASES[side]), B=B, S=const(0), yint=Z, y=Y)
    f2.st0.guard = ()
    at = price(f2, f2.spec("B*B", B=B), side)
    own = const(CASES[side])
    sp = lambda s: f2.spec(s, p=at, a=DX, b=DY)
    for nm, lo, hi, want in (("price in range", "p*a/(a+b)", "p+a", 1), ("price at the lower end", "p", "p+a", 1), ("price at the upper end", "p*a/(a+b)", "p", 0),
                             ("price above", "p*a/(a+b+1)", "p*a/(a+b)", 0), ("price below", "p+a", "p+a+b", 0), ("exactly the price", "p", "p", 1), ("exactly another price", "p+a", "p+a", 0)):
        for o, (s, t) in (("", (lo, hi)), (", reversed", (hi, lo))):
            f2.expect("size", n(f"share of a single-price curve, {nm}{o}"), f2.call(V, "liquidity_approx", sp(s), sp(t), asperc=const(True)), const(want))
            f2.expect("size", n(f"liquidity of a single-price curve, {nm}{o}"), f2.call(V, "liquidity_approx", sp(s), sp(t), own), Y if want else const(0))
        other = "base" if side == "quote" else "quote"
        conv = arith("mul", Y, at) if side == "base" else arith("div", Y, at)
        f2.expect("size", n(f"liquidity of a single-price curve in the other token, {nm}"), f2.call(V, "liquidity_approx", sp(lo), sp(hi), const(CASES[other])), conv if want else const(0))
    f2.expect("marginal", n("p_marg of a single-price curve"), f2.call(V, "p_marg"), at, strict=True)
    f2.expect("size", n("dyfromdx_f of a single-price curve"), f2.call(V, "dyfromdx_f", DX), f2.spec("a*B*B", a=DX, B=B), strict=True)
    f2.expect("size", n("dxfromdy_f of a single-price curve"), f2.call(V, "dxfromdy_f", DY, facts=[LE(DY, Y)]), f2.spec("a/(B*B)", a=DY, B=B), strict=True)
    f2.expect("curve", n("xfromy_f of a single-price curve"), f2.call(V, "xfromy_f", Y), f2.spec("(z-y)/(B*B)", z=Z, y=Y, B=B), strict=True)
    f2.expect("curve", n("yfromx_f of a single-price curve"), f2.call(V, "yfromx_f", DX, facts=[LE(f2.spec("a*B*B", a=DX, B=B), Z)]), f2.spec("z-a*B*B", z=Z, a=DX, B=B), strict=True)
    f2.expect("effective", n("p_eff_f of a single-price curve"), f2.call(V, "p_eff_f", DY, facts=[LE(DY, Y)]), at, strict=True)
    # no price at all: an empty curve
    f = F(ck, positive=[Z, DX])
    f.nonneg = [Y]
    f.fact(LT(const(0), Z), LT(const(0), DX), LE(const(0), Y), LE(Y, Z), NOT(EQ(Z, NONE)), NOT(EQ(Y, NONE)))
    V = f.new("CarbonOrderUI", pair=const(PAIR), tkn=own, B=const(0), S=const(0), yint=Z, y=Y)
    f.st0.guard = ()
    for m in ("dyfromp_f", "dyfromdx_f", "dxfromdy_f"):
        f.expect("bounds", n(f"{m} of an empty curve"), f.call(V, m, DX), const(0), strict=True)
        f.rejects("bounds", n(f"{m} of an empty curve, errors asked for"), f.call(V, m, DX, raiseonerror=const(True)), none_ok=False)
    for m in ("p_marg_f", "p_eff_f"):
        f.rejects("bounds", n(f"{m} of an empty curve"), f.call(V, m))
    f.expect("size", n("liquidity of an empty curve"), f.call(V, "liquidity_approx", DX, arith("add", DX, DX)), const(0))
    # a curve that ends at price zero
    if side == "quote":
        Q = sym("Q")
        f = F(ck, positive=[S, Z, Q])
        f.nonneg = [Y]
        f.fact(LT(const(0), S), LT(const(0), Z), LT(const(0), Q), LE(const(0), Y), LE(Y, Z), *[NOT(EQ(t, NONE)) for t in (S, Y, Z)])
        V = f.new("CarbonOrderUI", pair=const(PAIR), tkn=own, B=const(0), S=S, yint=Z, y=Y)
        f.st0.guard = ()
        f.expect("size", n("dyfromp_f of a curve ending at price zero"), f.call(V, "dyfromp_f", f.spec("q*q", q=Q), const(False)), f.spec("y-z*q/S", y=Y, z=Z, q=Q, S=S), strict=True)
        f.expect("marginal", n("p_marg of a curve ending at price zero"), f.call(V, "p_marg"), f.spec("(S*y/z)**2", S=S, y=Y, z=Z), strict=True)


def small(ck, side):
    """aliases, errors on demand, tiny trades, negative trades"""
    n = lambda s: f"{s} [{side}]"
    u, v = sym("u"), sym("v")
    f = view(ck, side, positive=(B, S, Z, DX, u, v))
    f.fact(LT(const(0), u), LT(const(0), v))
    V = f.V
    eps = f.call(f.clsref("CarbonOrderUI"), "EPSILON").value
    f.expect("curve", n("z is the capacity"), f.call(V, "z"), Z)
    f.expect("curve", n("A is S"), f.call(V, "A"), S)
    f.expect("linked", n("lid without a linked curve"), f.call(V, "lid"), NONE)
    L = sym("OTHER")
    f.I.settype(L, ("cls", f.I.qual("CarbonOrderUI")))
    f.fact(NOT(EQ(L, NONE)))
    f.st0.heap[(L, "f", "id")] = sym("LID")
    o = f.call(V, "set_linked", L)
    if o.dead:
        ck.bad("linked", n("set_linked"), "always fails")
    else:
        ck.decide(f.same(final(f, o, V, "linked", NONE), L, AND(o.facts, o.live)), "linked", n("set_linked"), f"linked curve is {f.nice(final(f, o, V, 'linked', NONE))}", f.where(o))
    keep = dict(f.st0.heap)
    f.st0.heap[(V, "f", "linked")] = L
    f.expect("linked", n("lid of a linked curve"), f.call(V, "lid"), sym("LID"))
    f.st0.heap.clear()
    f.st0.heap.update(keep)
    # errors on demand
    for m in ("dxfromdy_f", "p_marg_f", "p_eff_f"):
        for nm, a in (("dy<0", NEG(DX)), ("dy>y", arith("add", Y, DX))):
            for full in ((False, True) if m != "dxfromdy_f" else (False,)):
                a2 = arith("add", Z, DX) if full and nm == "dy>y" else a
                kw = {"fullcurve": const(True)} if full else {}
                f.rejects("bounds", n(f"{m} {nm}{' fullcurve' if full else ''}, errors asked for"), f.call(V, m, a2, raiseonerror=const(True), **kw), none_ok=False)
    for m, nm, a in (("dyfromdx_f", "dx<0", NEG(DX)), ("xfromy_f", "y<0", NEG(DX)), ("xfromy_f", "y>yint", arith("add", Z, DX)), ("yfromx_f", "x<0", NEG(DX)),
                     ("yfromx_f", "x>xint", f.spec("z/(B*(B+S))+a", z=Z, B=B, S=S, a=DX)),
                     ("yfromp_f", "beyond start", price(f, f.spec("(B+S)**2+a", B=B, S=S, a=DX), side)), ("yfromp_f", "beyond end", price(f, f.spec("B*B*u/(u+v)", B=B, u=u, v=v), side))):
        f.rejects("bounds", n(f"{m} {nm}, errors asked for"), f.call(V, m, a, raiseonerror=const(True)), none_ok=False)
    # by default out-of-range arguments are answered with None
    for m, nm, a in (("dyfromdx_f", "dx<0", NEG(DX)), ("dxfromdy_f", "dy<0", NEG(DX)), ("dxfromdy_f", "dy>y", arith("add", Y, DX)), ("p_marg_f", "dy<0", NEG(DX)), ("p_marg_f", "dy>y", arith("add", Y, DX)),
                     ("p_eff_f", "dy<0", NEG(DX)), ("p_eff_f", "dy>y", arith("add", Y, DX)), ("xfromy_f", "y<0", NEG(DX)), ("xfromy_f", "y>yint", arith("add", Z, DX)), ("yfromx_f", "x<0", NEG(DX)),
                     ("yfromx_f", "x>xint", f.spec("z/(B*(B+S))+a", z=Z, B=B, S=S, a=DX)), ("yfromp_f", "beyond start", price(f, f.spec("(B+S)**2+a", B=B, S=S, a=DX), side))):
        f.expect("bounds", n(f"{m} {nm}, by default"), f.call(V, m, a), NONE, strict=True)
    f.expect("marginal", n("p_marg_f by default"), f.call(V, "p_marg_f"), price(f, dydx_at(f, Y), side), strict=True)
    f.expect("marginal", n("p_marg_f of the full curve by default"), f.call(V, "p_marg_f", fullcurve=const(True)), price(f, f.spec("(B+S)**2", B=B, S=S), side), strict=True)
    f.expect("effective", n("p_eff_f by default"), f.call(V, "p_eff_f"), price(f, dydx_at(f, Y), side), strict=True)
    f.rejects("bounds", n("yfromp_f beyond start"), f.call(V, "yfromp_f", price(f, f.spec("(B+S)**2+a", B=B, S=S, a=DX), side)))
    f.expect("bounds", n("yfromp_f beyond end"), f.call(V, "yfromp_f", price(f, f.spec("B*B*u/(u+v)", B=B, u=u, v=v), side)), const(0))
    # amounts below the precision are no trade
    tiny = f.spec("e*u/(u+v)", e=eps, u=u, v=v)
    for nm, a, kw in (("tiny amount", tiny, {}), ("tiny negative amount", NEG(tiny), {}), ("tiny negative amount where none are allowed", NEG(tiny), {"allowneg": const(False)}), ("nothing", const(0), {}), ("nothing, where no negative amounts are allowed", const(0), {"allowneg": const(False)})):
        for raising in (False, True):
            o = f.call(V, "selly", a, **kw, **({"raiseonerror": const(True)} if raising else {}))
            nm2 = n(f"selly {nm}{', errors asked for' if raising else ''}")
            if o.dead:
                ck.bad("trade", nm2, "the trade always fails")
                continue
            g = AND(o.facts, o.live)
            for what, got, w in (("balance", final(f, o, V, "y", Y), Y), ("capacity", final(f, o, V, "yint", Z), Z), ("result dy", entry(o, "dy"), const(0)), ("result dx", entry(o, "dx"), const(0)),
                                 ("result y", entry(o, "y"), Y), ("result executed", entry(o, "executed"), const(False)), ("result expanded", entry(o, "expanded"), const(False)), ("result dx/dy", entry(o, "dx/dy"), NONE), ("result dy/dx", entry(o, "dy/dx"), NONE),
                                 ("result pmarg", entry(o, "pmarg"), price(f, dydx_at(f, Y), side)), ("result pmarg_old", entry(o, "pmarg_old"), price(f, dydx_at(f, Y), side))):
                ck.decide(f.same(got, w, g), "trade", f"{nm2}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")
    more = f.spec("e+u", e=eps, u=u)
    for nm, m, a, kw in (("selly a negative amount where none are allowed", "selly", NEG(more), {"allowneg": const(False)}), ("selly more than the balance", "selly", f.spec("y+e+u", y=Y, e=eps, u=u), {}),
                         ("selly beyond capacity", "selly", f.spec("y-z-e-u", y=Y, z=Z, e=eps, u=u), {})):
        f.rejects("bounds", n(nm), f.call(V, m, a, **kw))
        f.rejects("bounds", n(nm + ", errors asked for"), f.call(V, m, a, raiseonerror=const(True), **kw), none_ok=False)
    # buying back within the capacity
    A = f.spec("e+a", e=eps, a=DY)
    room = arith("add", arith("add", Y, A), X)
    f = view(ck, side, positive=(B, S, DY, X), z=room)
    f.fact(LT(const(0), DY), LT(const(0), X))
    V = f.V
    xof = lambda y: f.spec("z*(z-y)/((B*z+S*y)*(B+S))", B=B, S=S, y=y, z=room)
    new = arith("add", Y, A)
    dx = SUB(xof(new), xof(Y))
    for ex in (True, False):
        for m, a in (("selly", NEG(A)),):
            o = f.call(V, m, a, const(ex))
            nm = n(f"{m} of a negative amount, {'executed' if ex else 'preview'}")
            if o.dead:
                ck.bad("trade", nm, "the trade always fails")
                continue
            g = AND(o.facts, o.live)
            for what, got, w in (("balance", final(f, o, V, "y", Y), new if ex else Y), ("capacity", final(f, o, V, "yint", room), room), ("result dy", entry(o, "dy"), NEG(A)), ("result dx", entry(o, "dx"), dx),
                                 ("result y", entry(o, "y"), new), ("result x", entry(o, "x"), xof(new)), ("result executed", entry(o, "executed"), const(ex)), ("result expanded", entry(o, "expanded"), const(False)),
                                 ("result pmarg", entry(o, "pmarg"), price(f, dydx_at(f, new, room), side)), ("result pmarg_old", entry(o, "pmarg_old"), price(f, dydx_at(f, Y, room), side))):
                ck.decide(f.same(got, w, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")


def defaults(ck, side):
    """buying x passes the direction and expansion choices on"""
    n = lambda s: f"{s} [{side}]"
    A = sym("A")
    f = view(ck, side, positive=(B, S, Z, DX, A))
    f.fact(LT(const(0), A))
    V = f.V
    eps = f.call(f.clsref("CarbonOrderUI"), "EPSILON").value
    f.I.cfg.overrides["CarbonOrderUI.dyfromdx_f"] = lambda I, fn, args, kwargs, st, node: f.spec("y-z-e-a", y=Y, z=Z, e=eps, a=A)
    want = f.spec("z+e+a", z=Z, e=eps, a=A)
    dxx = NEG(DX)
    f.rejects("bounds", n("buyx beyond capacity"), f.call(V, "buyx", dxx))
    f.rejects("bounds", n("buyx beyond capacity, errors asked for"), f.call(V, "buyx", dxx, raiseonerror=const(True)), none_ok=False)
    f.rejects("bounds", n("buyx of a negative amount where none are allowed"), f.call(V, "buyx", dxx, allowneg=const(False), expandcurve=const(True)))
    for ex in (True, False):
        o = f.call(V, "buyx", dxx, const(ex), expandcurve=const(True))
        nm = n(f"buyx beyond capacity with expansion, {'executed' if ex else 'preview'}")
        if o.dead:
            ck.bad("trade", nm, "the trade always fails")
            continue
        g = AND(o.facts, o.live)
        for what, got, w in (("balance", final(f, o, V, "y", Y), want if ex else Y), ("capacity", final(f, o, V, "yint", Z), want if ex else Z), ("result y", entry(o, "y"), want), ("result y_int", entry(o, "y_int"), want),
                             ("result yint_old", entry(o, "yint_old"), Z), ("result executed", entry(o, "executed"), const(ex)), ("result expanded", entry(o, "expanded"), const(True))):
            ck.decide(f.same(got, w, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")


def far(ck, side):
    """trading to a price beyond the curve: nothing above, everything below"""
    n = lambda s: f"{s} [{side}]"
    E, U, W = sym("E"), sym("U"), sym("W")
    for case in ("beyond the start price", "beyond the end price"):
        g0 = F(ck)
        eps = g0.call(g0.clsref("CarbonOrderUI"), "EPSILON").value
        if case == "beyond the start price":
            z = arith("add", Y, U)
            dydx = lambda f: f.spec("(B+S+(e+E)*S/z)**2", B=B, S=S, E=E, e=eps, z=z)
            y, want = Y, Y
        else:
            z = g0.spec("S*(B+E)*(e+U)/(B*E)", B=B, S=S, E=E, U=U, e=eps)
            y = g0.spec("z*W/(1+W)", z=z, W=W)
            dydx = lambda f: f.spec("(B*B/(B+E))**2", B=B, E=E)
            want = const(0)
        f = view(ck, side, positive=(B, S, E, U, W), y=y, z=z)
        f.nonneg = [Y]
        f.fact(*[LT(const(0), t) for t in (E, U, W)])
        if want is not Y:
            f.fact(LT(eps, y))
        V = f.V
        p = price(f, dydx(f), side)
        for ex in (True, False):
            o = f.call(V, "tradeto", p, const(ex))
            nm = n(f"tradeto far {case}, {'executed' if ex else 'preview'}")
            if o.dead:
                ck.bad("trade", nm, "the trade always fails")
                continue
            g = AND(o.facts, o.live)
            for what, got, w in (("balance", final(f, o, V, "y", Y), want if ex else y), ("capacity", final(f, o, V, "yint", Z), z), ("result y", entry(o, "y"), want), ("result dy", entry(o, "dy"), SUB(y, want)),
                                 ("result executed", entry(o, "executed"), const(ex and want is not Y))):
                ck.decide(f.same(got, w, g), "trade", f"{nm}: {what}", f"is {f.nice(got)} instead of {f.nice(w)}")


def rounding(ck):
    f = F(ck)
    C = f.clsref("CarbonOrderUI")
    x = sym("VAL")
    f.I.settype(x, ("float",))
    f.expect("curve", "roundsd without a number of decimals", f.call(C, "roundsd", x), x)
    f.expect("curve", "roundsd of a text", f.call(C, "roundsd", const("abc"), const(4)), const("abc"))
    for v, k, w in ((123.4567, 5, 123.46), (0.00123456, 3, 0.00123), (5.0, 4, 5.0)):
        f.expect("curve", f"roundsd of {v} to {k} digits", f.call(C, "roundsd", const(v), const(k)), const(w))
    f.expect("curve", "roundsd of zero", f.call(C, "roundsd", const(0), const(4)), const(0))


def main():
    ck = Check("C15", "order-curve functions are mutually consistent", RULES, floor=300, assumptions=[
        "real arithmetic (rounding ignored)", "curve parameters B, S and the capacity are positive, 0 <= balance <= capacity"])
    for side in CASES:
        guarded(ck, "curve", f"curve [{side}]", lambda: curve(ck, side))
        guarded(ck, "curve", f"parameters [{side}]", lambda: params(ck, side))
        for l in (False, True):
            guarded(ck, "trade", f"trades [{side}, {l}]", lambda: trades(ck, side, l))
        guarded(ck, "size", f"coverage [{side}]", lambda: coverage(ck, side))
        guarded(ck, "trade", f"to price [{side}]", lambda: to_price(ck, side))
        guarded(ck, "trade", f"buying back [{side}]", lambda: buyback(ck, side))
        guarded(ck, "linked", f"addliqy [{side}]", lambda: addliqy(ck, side))
        guarded(ck, "marginal", f"special curves [{side}]", lambda: special(ck, side))
        guarded(ck, "trade", f"small trades [{side}]", lambda: small(ck, side))
        guarded(ck, "trade", f"defaults [{side}]", lambda: defaults(ck, side))
        guarded(ck, "trade", f"far prices [{side}]", lambda: far(ck, side))
    guarded(ck, "goal", "goal seek", lambda: bisect(ck))
    guarded(ck, "curve", "rounding", lambda: rounding(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
