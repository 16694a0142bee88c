from checks.view import *

RULES = {
    "view": "the order view's input for an output, output for an input and marginal price are the swap formula of the order's curve",
    "fast": "the fast matcher's swap amounts are the swap formula of the order's curve, capped at the order's balance",
    "alpha": "the alpha matcher's swap amounts are the swap formula of the order's curve",
    "exact": "the exact matcher's swap amounts are the swap formula of the order's curve",
    "split": "the exact matcher splits an amount over orders so that the amounts add up to the requested one and the marginal prices after the trade are equal",
    "order": "the derived parameters of an order (x0, y0, n, x, k) describe the order's curve",
    "benchmark": "the benchmark reference computes the same swap formula up to rounding",
}
H, L, W, D, AMT = sym("h"), sym("l"), sym("w"), sym("D"), sym("AMT")
FAST, ALPHA, EXACT = "carbon.routers.fast_router.FastRouter", "carbon.routers.alpha_router.AlphaRouter", "carbon.routers.exact_router_x0y0n.ExactRouterX0Y0N"


def swap_in(f, d, y, b=B, s=S, z=Z):
    """input needed for output d"""
    return f.spec("d*z*z/((s*y+b*z)*(s*y+b*z-s*d))", d=d, y=y, b=b, s=s, z=z)


def swap_out(f, d, y, b=B, s=S, z=Z):
    """output obtained for input d"""
    return f.spec("d*(s*y+b*z)**2/(s*d*(s*y+b*z)+z*z)", d=d, y=y, b=b, s=s, z=z)


def ctx(ck, pos, nonneg=(), extra=(), approx=(), **cfg):
    f = F(ck, positive=list(pos), **cfg)
    f.nonneg = list(nonneg)
    if approx:
        f.canon().approx_ident |= set(approx)
    f.fact(*[LT(const(0), p) for p in pos], *[LE(const(0), p) for p in nonneg], *[NOT(EQ(p, NONE)) for p in list(pos) + list(nonneg)], *extra)
    return f


def build(f, cls, orders, **kw):
    st = f.state()
    f.st0 = st
    I = f.I
    fn = I.from_lookup(I.p.lookup(*cls.rsplit(".", 1)), cls.rsplit(".", 1)[1], st)
    r = I.apply(fn, [], kw, st, None)
    o = I.new_obj("list")
    st.heap[(o, "c")] = mk("list", *[mk("seg", x, TRUE, mk("loops")) for x in orders])
    st.heap[(r, "f", "orders")] = o
    st.guard = ()
    return r


def order(f, y=Y, z=Z, **kw):
    st = f.state()
    f.st0 = st
    r = f.I.construct(f.I.qual("Order"), [], {"_y": y, "y_int": z, "tkn": const("AAA"), **kw}, st, None)
    st.guard = ()
    return r


def params(f, **kv):
    """a parameters dict"""
    d = f.I.new_obj("dict")
    f.st0.heap[(d, "c")] = mk("dict", *[mk("kv", const(k), const(v), TRUE, mk("loops")) for k, v in kv.items()])
    return d


def single(ck):
    # routers over an order with curve parameters B, S, capacity Z and balance Y
    for floor, over in ((False, False), (True, False), (False, True), (True, True)):
        nm = lambda s: s + (" [floor]" if floor else "") + (" [balance above capacity]" if over else "")
        f = ctx(ck, [B, S, Z, D], [Y], [LT(Z, Y) if over else LE(Y, Z), LE(const(1), Z), LT(D, f_T())], approx=("floordiv",) if floor else ())
        o = order(f, B=B, S=S)
        kw = {"parameters": params(f, use_floor_division=True)} if floor else {}
        if not floor:
            r = build(f, FAST, [o])
            fast(ck, f, r, nm)
        r = build(f, ALPHA, [o], **kw)
        ten, tsn = "amt_by_target", "amt_by_src"
        f.expect("alpha", nm("AlphaRouter.amt_by_target"), f.call(r, ten, const(0), D), swap_in(f, D, Y), strict=True)
        f.expect("alpha", nm("AlphaRouter.amt_by_src"), f.call(r, tsn, const(0), D), swap_out(f, D, Y), strict=True)
    if True:
        f = ctx(ck, [B, S, Z, D, sym("X0"), sym("Y0")], [Y], [LE(Y, Z)])
        o = f.obj("ORD", "Order", x0=sym("X0"), y0=sym("Y0"))
        for fl in (False, True):
            f.canon().approx_ident = {"floordiv"} if fl else set()
            r = build(f, ALPHA, [o], **({"parameters": params(f, use_floor_division=True)} if fl else {}))
            f.expect("alpha", "AlphaRouter.get_geoprice" + (" [floor]" if fl else ""), f.call(r, "get_geoprice", const(0)), f.spec("a/b", a=sym("X0"), b=sym("Y0")), strict=True)


def f_T():
    return arith("div", arith("add", arith("mul", S, Y), arith("mul", B, Z)), S)


def fast(ck, f, r, nm):
    want_in, want_out = lambda d: swap_in(f, d, Y), lambda d: swap_out(f, d, Y)
    f.expect("fast", nm("FastRouter.amt_by_src"), f.call(r, "amt_by_src", const(0), D), want_in(D), strict=True)
    f.expect("fast", nm("FastRouter.amt_by_target"), f.call(r, "amt_by_target", const(0), D), want_out(D), strict=True)
    C = f.canon()
    o = raw(f, r, "get_trade_amounts_by_target_amount", AMT, const(0), facts=[LE(const(0), AMT), LE(AMT, Y)])
    rate(ck, f, o, nm("FastRouter.get_trade_amounts_by_target_amount, enough balance"), AMT, want_in(AMT))
    o = raw(f, r, "get_trade_amounts_by_target_amount", AMT, const(0), facts=[LT(Y, AMT)])
    rate(ck, f, o, nm("FastRouter.get_trade_amounts_by_target_amount, more than the balance"), Y, want_in(Y))
    o = raw(f, r, "get_trade_amounts_by_source_amount", D, const(0), facts=[LE(want_out(D), Y)])
    rate(ck, f, o, nm("FastRouter.get_trade_amounts_by_source_amount, enough balance"), D, want_out(D))
    o = raw(f, r, "get_trade_amounts_by_source_amount", D, const(0), facts=[LT(Y, want_out(D))])
    rate(ck, f, o, nm("FastRouter.get_trade_amounts_by_source_amount, more than the balance"), want_in(Y), Y)


def raw(f, r, m, *args, facts=(), **kw):
    """outcome of a call whose result is an object"""
    keep, freeze = [], f.I.freeze
    orig = f.I.apply
    top = [0]

    def apply(fn, a, k, st, node):
        top[0] += 1
        try:
            v = orig(fn, a, k, st, node)
        finally:
            top[0] -= 1
        if top[0] == 0:
            keep.append(v)
        return v
    f.I.apply = apply
    try:
        o = f.call(r, m, *args, facts=facts, **kw)
    finally:
        f.I.apply = orig
    o.raw = keep[-1] if keep else NONE
    return o


def rate(ck, f, o, name, i, out):
    if o.dead:
        return ck.bad("fast", name, "always fails")
    g = AND(o.facts, o.live)
    st = f.st0
    for fld, want in (("input", i), ("output", out)):
        try:
            v = f.I.freeze(f.I.getattr(o.raw, fld, o.st, None), o.st)
            d = f.same(v, want, g)
        except (Dead, Undecided, Budget) as e:
            ck.undecided("fast", f"{name}: {fld}", str(e))
            continue
        ck.decide(d, "fast", f"{name}: {fld}", f"is {f.nice(f.canon().prune(v, g))} instead of {f.nice(want)}", f.where(o))


def muldiv(ck):
    a, b, c = sym("a"), sym("b"), sym("c")
    for fl in (False, True):
        f = ctx(ck, [a, b, c])
        r = build(f, FAST, [], **({"parameters": params(f, use_floor_division=True)} if fl else {}))
        w = "a*b//c" if fl else "a*b/c"
        f.expect("fast", "FastRouter.mul_div_f" + (" [floor]" if fl else ""), f.call(r, "mul_div_f", a, b, c), f.spec(w, a=a, b=b, c=c), strict=True)
        w = "(a*b+c-1)//c" if fl else "a*b/c"
        f.expect("fast", "FastRouter.mul_div_c" + (" [floor]" if fl else ""), f.call(r, "mul_div_c", a, b, c), f.spec(w, a=a, b=b, c=c), strict=True)
    # floor mode: encoded parameters (times ONE), rounding ignored
    One = const(2 ** 32)
    f = ctx(ck, [B, S, Z, D], [Y], [LE(Y, Z), LT(D, f_T())], approx=("floordiv",))
    ident = lambda I, fn, args, kwargs, st, node: arith("div", arith("mul", args[-3], args[-2]), args[-1]) if len(args) >= 3 and not kwargs else None
    f.I.cfg.overrides["FastRouter.mul_div_f"] = f.I.cfg.overrides["FastRouter.mul_div_c"] = ident
    o = order(f, B=arith("mul", B, One), S=arith("mul", S, One))
    r = build(f, FAST, [o], parameters=params(f, use_floor_division=True))
    f.expect("fast", "FastRouter.amt_by_src [floor]", f.call(r, "amt_by_src", const(0), D), swap_in(f, D, Y), strict=True)
    f.expect("fast", "FastRouter.amt_by_target [floor]", f.call(r, "amt_by_target", const(0), D), swap_out(f, D, Y), strict=True)


def four(f, t):
    return f.spec("t*t*t*t", t=t)


def exact(ck):
    YN, RM = sym("YN"), sym("RM")
    z = arith("add", arith("add", YN, D), RM)
    y = arith("add", YN, D)
    f = ctx(ck, [L, W, YN, D, RM])
    h = arith("add", L, W)
    o = order(f, y, z, p_high=four(f, h), p_low=four(f, L))
    b, s = f.spec("l*l", l=L), f.spec("h*h-l*l", h=h, l=L)
    o_ = lambda nm: f.call(o, nm)
    sp = lambda e: f.spec(e, h=h, l=L, y=y, z=z, b=b, s=s)
    f.expect("order", "Order.n", o_("n"), sp("1-l/h"), strict=True)
    f.expect("order", "Order.y0", o_("y0"), sp("z*l/(h+l)"), strict=True)
    f.expect("order", "Order.x0", o_("x0"), sp("z/(h*h*l*(h+l))"), strict=True)
    f.expect("order", "Order.k", o_("k"), sp("z*z/(h*h*(h+l)**2)"), strict=True)
    f.expect("order", "Order.x", o_("x"), sp("(z-y)*z/((b+s)*(s*y+b*z))").__class__ and f.spec("x0*(n*y-y+y0*(2-n))/(n*y+y0*(1-n))", x0=sp("z/(h*h*l*(h+l))"), y0=sp("z*l/(h+l)"), n=sp("1-l/h"), y=y), strict=True)
    f.expect("order", "Order.y", o_("y"), y, strict=True)
    r = build(f, EXACT, [o])
    idx = f.I.new_obj("list")
    f.st0.heap[(idx, "c")] = mk("list", mk("seg", const(0), TRUE, mk("loops")))
    want = swap_in(f, D, y, b, s, z)
    f.expect("exact", "dxdy, output D", f.call(r, "dxdy", const(0), arith("mul", const(-1), D)), want, strict=True)


def exact_single(ck):
    n, x0, c = sym("n"), sym("x0"), sym("c")
    f = ctx(ck, [n, x0, c, D, Y])
    r, idx = symbolic(f, [n], [x0], [c], [Y])
    neg = lambda t: arith("mul", const(-1), t)
    f.expect("exact", "amt_by_target, single order", f.call(r, "amt_by_target", const(0), neg(D), idx), neg(D), strict=True)
    v = f.spec("n*y+c*c/x0*(1-n)", n=n, y=Y, c=c, x0=x0)
    want = f.spec("-x*v*v/(c*c+n*x*v)", x=D, v=v, c=c, n=n)
    f.expect("exact", "amt_by_src, single order", f.call(r, "amt_by_src", const(0), D, idx), want, strict=True)
    f.expect("exact", "dxdy of amt_by_src gives the source amount", f.call(r, "dxdy", const(0), want), D)


def symbolic(f, ns, x0s, cs, ys):
    """exact matcher over orders with arbitrary (n, x0, k = c^2, y)"""
    os_, table = [], {}
    for i in range(len(ns)):
        k = f.spec("c*c", c=cs[i])
        y0 = f.spec("c*c/x", c=cs[i], x=x0s[i])
        xv = f.spec("x0*(n*y-y+y0*(2-n))/(n*y+y0*(1-n))", x0=x0s[i], y0=y0, n=ns[i], y=ys[i])
        av = f.spec("k*(n-1)-n*x0*y", k=k, n=ns[i], x0=x0s[i], y=ys[i])
        o = f.obj(f"O{i}", "Order", y=ys[i], _y=ys[i])
        os_.append(o)
        for fld, v in (("x0", x0s[i]), ("y0", y0), ("n", ns[i]), ("k", k), ("x", xv), ("a", av), ("y", ys[i])):
            table[(o, fld)] = v
    for fld in ("x0", "y0", "n", "k", "x", "a", "y"):
        f.I.cfg.overrides["Order." + fld] = (lambda fl: lambda I, fn, args, kwargs, st, node: table.get((args[0], fl)) if len(args) == 1 else None)(fld)
    r = build(f, EXACT, os_)
    idx = f.I.new_obj("list")
    f.st0.heap[(idx, "c")] = mk("list", *[mk("seg", const(i), TRUE, mk("loops")) for i in range(len(ns))])
    return r, idx


def derived(ck):
    """k, x and a of an order are the functions of x0, y0, n, y the exact matcher relies on"""
    n, x0, y0 = sym("n"), sym("x0"), sym("y0")
    f = ctx(ck, [n, x0, y0, Y])
    o = f.obj("ORD", "Order", y=Y, _y=Y)
    tb = {"n": n, "x0": x0, "y0": y0, "y": Y}
    for k, v in tb.items():
        f.I.cfg.overrides["Order." + k] = (lambda w: lambda I, fn, args, kwargs, st, node: w if args[0] is o and len(args) == 1 else None)(v)
    f.expect("order", "Order.k", f.call(o, "k"), f.spec("a*b", a=x0, b=y0), strict=True)
    f.expect("order", "Order.x", f.call(o, "x"), f.spec("x0*(n*y-y+y0*(2-n))/(n*y+y0*(1-n))", x0=x0, y0=y0, n=n, y=Y), strict=True)
    f.expect("order", "Order.a", f.call(o, "a"), f.spec("x0*y0*(n-1)-n*x0*y", x0=x0, y0=y0, n=n, y=Y), strict=True)


def split(ck):
    """two and three orders: the exact split exhausts the amount and equalises the marginal prices"""
    for N, concrete in ((2, 0), (3, 0), (2, 1), (3, 2)):
        # x0 = a^2 t-ish: sqrt(k_i k_j) rational when k_i = c_i**2
        ns = [arith("div", const(1), const(2 << i)) if concrete else sym(f"n{i}") for i in range(N)]
        x0s = [const(2 << i) if concrete else sym(f"x{i}") for i in range(N)]
        tag = ", fixed n and x0" if concrete else ""
        cs = [const(5 + 2 * i) if concrete == 2 else sym(f"c{i}") for i in range(N)]
        ys = [sym(f"y{i}") for i in range(N)]
        f = ctx(ck, [t for t in ns + x0s + cs + ys + [AMT] if t.op == "sym"])
        r, idx = symbolic(f, ns, x0s, cs, ys)
        # derived properties of a symbolic order agree with Order's own definitions
        def marg(dy, i):
            """sqrt of the marginal price after moving the balance by dy, times sqrt(k)"""
            return f.spec("(n*(y+dy)+y0*(1-n))/c", n=ns[i], y=ys[i], y0=f.spec("c*c/x", c=cs[i], x=x0s[i]), dy=dy, c=cs[i])
        kinds = ("amt_by_target",) if not concrete else ("amt_by_src",)
        for kind in kinds:
            outs = [f.call(r, kind, const(i), AMT, idx) for i in range(N)]
            if any(o.dead for o in outs):
                ck.bad("split", f"{kind}, {N} orders", "always fails")
                continue
            vals = [o.value for o in outs]
            if kind == "amt_by_target":
                tot = vals[0]
                for v in vals[1:]:
                    tot = arith("add", tot, v)
            else:
                tot = None
                for i in range(N):
                    d = f.call(r, "dxdy", const(i), vals[i]).value
                    tot = d if tot is None else arith("add", tot, d)
            g = AND(*f.facts)
            for nm, x, y, msg in [("amounts add up", tot, AMT, "the amounts matched to the orders do not add up to the requested amount")] + \
                    [(f"equal marginal prices {i}", marg(vals[0], 0), marg(vals[i], i), "the marginal prices of the orders differ after the trade") for i in range(1, N)]:
                try:
                    ck.decide(f.same(x, y, g), "split", f"{kind}, {N} orders{tag}: {nm}", msg)
                except (Undecided, Budget) as e:
                    ck.undecided("split", f"{kind}, {N} orders{tag}: {nm}", str(e))


def views(ck):
    for side in CASES:
        n = lambda s: f"{s} [{side}]"
        # D = output within the balance
        YN, RM = sym("YN"), sym("RM")
        y = arith("add", YN, D)
        z = arith("add", y, RM)
        f = view(ck, side, facts=[LT(const(0), t) for t in (B, S, YN, D, RM)], positive=(B, S, YN, D, RM), y=y, z=z)
        f.expect("view", n("dxfromdy_f"), f.call(f.V, "dxfromdy_f", D), swap_in(f, D, y, z=z), strict=True)
        f.expect("view", n("p_marg"), f.call(f.V, "p_marg"), price(f, f.spec("((s*y+b*z)/z)**2", s=S, b=B, y=y, z=z), side), strict=True)
        f = view(ck, side, positive=(B, S, Z, D))
        f.fact(LT(const(0), D))
        ok = [LE(swap_out(f, D, Y), Y)]
        f.expect("view", n("dyfromdx_f"), f.call(f.V, "dyfromdx_f", D, facts=ok), swap_out(f, D, Y))


def bench(ck):
    M_, x = sym("M"), sym("x")
    f = ctx(ck, [B, S, Z, x], [Y])
    m = f.spec("(s*y+b*z)/z", s=S, b=B, y=Y, z=Z)
    sp = "core.trade.spec."
    f.expect("benchmark", "spec.tradeBySourceAmountFunc", f.func(sp + "tradeBySourceAmountFunc", x, Y, B, m, facts=[LT(const(0), Y)]), swap_out(f, x, Y), strict=False)
    f.expect("benchmark", "spec.tradeByTargetAmountFunc", f.func(sp + "tradeByTargetAmountFunc", x, Y, B, m, facts=[LT(const(0), Y)]), swap_in(f, x, Y), strict=False)
    im = "core.trade.impl."
    One = const(2 ** 48)
    f = ctx(ck, [B, S, Z, x], [Y], [], approx=("floordiv",))
    ident = lambda I, fn, args, kwargs, st, node: arith("div", arith("mul", args[0], args[1]), args[2])
    ops = {"add": "add", "sub": "sub", "mul": "mul"}
    ov = f.I.cfg.overrides
    ov["mulDivF"] = ov["mulDivC"] = ident
    for k in ops:
        ov[k] = (lambda o: lambda I, fn, args, kwargs, st, node: SUB(args[0], args[1]) if o == "sub" else arith(o, args[0], args[1]))(k)
    A_, B_ = arith("mul", S, One), arith("mul", B, One)
    for A2, tag, wi, wo in ((A_, "", swap_in(f, x, Y), swap_out(f, x, Y)),
                            (const(0), ", flat", f.spec("x/(b*b)", x=x, b=B), f.spec("x*b*b", x=x, b=B))):
        f.expect("benchmark", "impl.tradeBySourceAmountFunc" + tag, f.func(im + "tradeBySourceAmountFunc", x, Y, Z, A2, B_), wo)
        f.expect("benchmark", "impl.tradeByTargetAmountFunc" + tag, f.func(im + "tradeByTargetAmountFunc", x, Y, Z, A2, B_), wi)


def g_rule(g):
    return {"single": "alpha", "muldiv": "fast", "exact": "order", "exact_single": "exact", "derived": "order", "split": "split", "views": "view", "bench": "benchmark"}[g.__name__]


def main():
    ck = Check("C14", "All matchers and the order view price a swap by the same formula", RULES, floor=20,
               assumptions=["decimal and floating-point rounding is ignored", "floor divisions are compared up to rounding",
                            "the exact matcher's split is decided for two and three orders with any parameters"])
    for g in (single, muldiv, exact, exact_single, derived, split, views, bench):
        guarded(ck, g_rule(g), g.__name__, lambda: g(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
