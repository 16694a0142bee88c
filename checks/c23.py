"""Encodings of orders: the mantissa/exponent code, the rate code, and the order records built from them are compared,
as value terms, with their specification, in the contract-interface classes and in the benchmark alike; two terms are
told apart by a point at which they differ."""
from checks.c20 import *
from vf.exact import bits, difference
from vf.algebra import *

RULES = {
    "code": "mantissa and exponent are packed and unpacked as specified: decoding gives back the number with only the bits below the mantissa lost",
    "order": "an encoded order holds liquidity, capacity and rates by the specified formulas, and is read back by their inverses",
    "agree": "the contract-interface classes and the benchmark encode and decode alike",
    "float": "a float-int holds the leading 40 binary digits and the exponent of its number, within the exponent's range, and converts back by the same scale",
    "strategy": "a strategy read from the contract interface gives the two orders with its prices, budgets and fill levels, and is filed in a simulator as exactly those",
}
EO = "carbon.sdk.carbonsdk.EncodedOrder"
BI = "core.trade.impl"
BS = "core.trade.spec"
FI = "carbon.helpers.floatint"
ONE = 2 ** 48
NUMS = sorted({0, 1, 2, 3, 5, 1000, *[2 ** k + d for k in (40, 41, 47, 48, 49, 50, 55, 60, 64, 95, 96, 97, 128, 200, 255) for d in (-1, 0, 1, 77777)], 0x123456789abcdef0123456789abcdef})


class En(Sc):
    def __init__(self, ck, ints=("v", "y", "z", "A", "B"), nums=()):
        Sc.__init__(self, ck, [sym(x) for x in nums], nonneg=[sym(x) for x in ints])
        GIVEN.update(list(ints) + list(nums))
        for x in ints:
            self.I.settype(sym(x), ("int",))
        self.env = {x: sym(x) for x in list(ints) + list(nums)}
        for n, q in (("E", EO), ("F", f"{FI}.CarbonFloatInt64"), ("F48", f"{FI}.CarbonFloatInt48"), ("F32", f"{FI}.CarbonFloatInt32")):
            self.env[n] = mk("cls", self.I.qual(q))
        for n, q in (("bi", BI), ("bs", BS)):
            if q in self.I.p.mods:
                self.env[n] = mk("mod", q)

    def code(self, rule, name, src, want, points, sizes=None):
        """src has the value of the specification `want` (text or expression evaluated in the scene)"""
        ck, f = self.ck, self.f
        try:
            o = self.ev(src)
            w = self.ev(want)
        except Exception as e:
            return ck.undecided(rule, name, f"{type(e).__name__}: {e}")
        if o.dead:
            return ck.bad(rule, name, "the call always fails", f.where(o))
        for e in o.effects:
            if e.kind in ("badcall", "noattr", "noname") and e.guard is TRUE:
                return ck.bad(rule, name, f"the call always fails: {e.kind} {e.key}", e.where)
        a, b = bits(o.value, self.I.intval), bits(w.value, self.I.intval)
        la, lb = bits(o.live, self.I.intval), bits(w.live, self.I.intval)
        d = difference(ITE(la, a, const("rejected")), ITE(lb, b, const("rejected")), points)
        if d is not None:
            env = ", ".join(f"{k}={brief_n(v)}" for k, v in d[0].items())
            return ck.bad(rule, name, f"is {brief_n(d[1])} instead of {brief_n(d[2])} for {env}", f.where(o))
        C = f.canon()
        v = True
        for m in sizes or [{}]:
            p, q, lp, lq = [bits(subst(t, m), self.I.intval) for t in (a, b, la, lb)]
            C = f.canon()
            if p is q and lp is lq:
                continue
            v = v and C.same(p, q) and (lp is lq or C.same(lp, lq) or C.implies(lq, lp))
            if not v:
                a, b = p, q
                break
        if not v and not sizes:
            return self.eq(rule, name, w.value, src)
        ck.decide(True if v else None, rule, name, f"is {brief(a, 200)} instead of {brief(b, 200)}", f.where(o))


def brief_n(v):
    s = str(v)
    return s if len(s) < 40 else hex(v) if isinstance(v, int) else s[:37] + ".."


def pts(**ranges):
    import itertools
    return [dict(zip(ranges, c)) for c in itertools.product(*ranges.values())]


def codes(ck):
    for who, pre in (("EncodedOrder", "E"), ("benchmark", "bi")):
        s = En(ck)
        if pre not in s.env:
            ck.undecided("code", who, "module not found")
            continue
        vs = pts(v=NUMS)
        s.code("code", f"{who}.bitLength", f"{pre}.bitLength(v)", "v.bit_length()", vs)
        s.code("code", f"{who}.decodeFloat", f"{pre}.decodeFloat(v)", f"(v % {ONE}) << (v // {ONE})", pts(v=[x for x in NUMS if x < 2 ** 58]))
        s.code("code", f"{who}.encodeFloat", f"{pre}.encodeFloat(v)", f"(v >> (v // {ONE}).bit_length()) | ((v // {ONE}).bit_length() * {ONE})", vs)
        sq = [F_(n, 2 ** 48) ** 2 for n in (0, 1, 5, 2 ** 20 + 1, 2 ** 47, 2 ** 48, 2 ** 48 + 1, 3 * 2 ** 48 + 5, 2 ** 60 + 12345, 2 ** 75 + 1234567)] + [F_(4), F_(9, 16), F_(10 ** 10), F_(2500)]
        arg = "v"
        s2 = En(ck, ints=(), nums=("v",))
        if pre == "bi":
            s2.env["v"] = mk("Decimal", sym("v"))
        s2.code("code", f"{who}.encodeRate", f"{pre}.encodeRate({arg})", f"((int(math.sqrt(v) * {ONE})) >> (int(math.sqrt(v) * {ONE}) // {ONE}).bit_length()) << (int(math.sqrt(v) * {ONE}) // {ONE}).bit_length()", pts(v=sq))
    s = En(ck)
    s.code("code", "EncodedOrder.decode", "E.decode(v)", f"((v % {ONE}) << (v // {ONE})) / {ONE}", pts(v=[x for x in NUMS if x < 2 ** 58]))
    if "bi" in s.env:
        s.code("code", "benchmark.decodeRate", "bi.decodeRate(v)", f"(v / {ONE}) ** 2", pts(v=NUMS))
        for fn in ("bitLength", "decodeFloat", "encodeFloat"):
            s.code("agree", fn, f"E.{fn}(v)", f"bi.{fn}(v)", pts(v=[x for x in NUMS if fn != "decodeFloat" or x < 2 ** 58]))


def F_(*a):
    from fractions import Fraction
    return Fraction(*a)


def orders(ck):
    s = En(ck, ints=("y", "z", "A", "B"))
    s.env["o"] = s.I.construct(s.I.qual(EO), [const("0xA1"), sym("y"), sym("z"), sym("A"), sym("B")], {}, s.st, None)
    for a in "yzAB":
        s.eq("order", f"field {a}", a, f"o.{a}")
        s.eq("order", f"item {a}", a, f"o['{a}']")
        s.eq("order", f"from_sdk: {a}", a, "E.from_sdk('0xA1', {'y': y, 'z': z, 'A': A, 'B': B}).%s" % a)
    s.eq("order", "from_sdk: token", "'0xA1'", "E.from_sdk('0xA1', {'y': y, 'z': z, 'A': A, 'B': B}).token")
    P = pts(y=[0, 7], z=[7, 20], A=[0, 1000, 2 ** 47, 3 * ONE + 5], B=[1, 2 ** 46, 2 ** 47 + 99, 2 * ONE + 2 ** 47])
    dec = lambda x: f"(({x} % {ONE}) << ({x} // {ONE})) / {ONE}"
    for src, want in (("o.A_", dec("A")), ("o.B_", dec("B")), ("o.p_end", f"({dec('B')})**2"), ("o.p_start", f"({dec('A')} + {dec('B')})**2"), ("o.decoded.y", "y"), ("o.decoded.z", "z"), ("o.decoded.A", dec("A")), ("o.decoded.B", dec("B"))):
        s.code("order", src, src, want, P)
    # marginal rate of a full and of an empty order
    for nm, y, z, want in (("full", 5, 5, "p_start"), ("empty", 0, 5, "p_end")):
        s.env["o2"] = s.I.construct(s.I.qual(EO), [const("0xA1"), const(y), const(z), sym("A"), sym("B")], {}, s.st, None)
        s.code("order", f"p_marg of a {nm} order", "o2.p_marg", f"o2.{want}", P)
    # encoding
    s = En(ck, ints=("y",), nums=("lo", "d1", "d2", "k"))
    s.env.update(h=s.sp("(lo+d1+d2)**2"), l=s.sp("lo**2"), m=s.sp("(lo+d1)**2"), A=sym("fA"), B=sym("fB"))
    GIVEN.update(("fA", "fB"))
    R = [F_(1, 3), F_(7, 1024), F_(5, 2), F_(3), F_(100)]
    for nm, args, z in (("plain", "y, h, l", "int(y)"), ("with token", "y, h, l, token='T'", "int(y)"), ("with capacity", "y, h, l, z=k", "int(k)"), ("with marginal rate", "y, h, l, p_marg=m", "int(y*(d1+d2)/d1)"), ("with marginal rate at start", "y, h, l, p_marg=h", "int(y)"),
                        ("with marginal rate above start", "y, h, l, p_marg=4*h", "int(y)"), ("positional", "y, h, l, m", "int(y*(d1+d2)/d1)")):
        for a, w in (("y", "int(y)"), ("z", z), ("token", "'T'" if "token" in args else "'TKN'")):
            s.code("order", f"encode {nm}: {a}", f"E.encode({args}).{a}", w, pts(y=[1000, 12345], lo=R[:2], d1=R[1:4], d2=R[2:], k=[50000]))
        for a, w in (("A", "E.encodeFloat(E.encodeRate(h) - E.encodeRate(l))"), ("B", "E.encodeFloat(E.encodeRate(l))")):
            s.code("order", f"encode {nm}: {a}", f"E.encode({args}).{a}", w, pts(y=[1000, 12345], lo=R[:2], d1=R[1:4], d2=R[2:], k=[50000]))
    s.rejects("order", "encode with both capacity and marginal rate", "E.encode(y, h, l, p_marg=m, z=k)")
    s.env["z"] = sym("k")
    for a, w in (("y", "int(y)"), ("z", "int(z)"), ("token", "'T'")):
        s.eq("order", f"encode_yzAB: {a}", w, f"E.encode_yzAB(y, z, A, B, 'T').{a}")
    for a in "AB":
        s.code("order", f"encode_yzAB: {a}", f"E.encode_yzAB(y, z, A, B, 'T').{a}", f"E.encodeFloat(int({a} * {ONE}))", pts(y=[10], k=[20], fA=R, fB=R))
    # benchmark
    if "bi" not in s.env:
        return
    D = lambda x: mk("Decimal", sym(x))
    rec = "{'liquidity': y, 'lowestRate': l, 'highestRate': h, 'marginalRate': m}"
    s.env.update(l=sym("l_"), h=sym("h_"), m=sym("m_"))
    GIVEN.update(("l_", "h_", "m_"))
    from_ = {x: s.ev(f"bi.encodeRate(v)", v=D(x + "_")).value for x in "hlm"}
    s.env.update(H_=from_["h"], L_=from_["l"], M_=from_["m"])
    Q = [x * x for x in R]
    P = pts(y=[1000, 54321], l_=Q[:2], m_=Q[2:4], h_=Q[3:])
    for kk, w in (("y", "int(y)"), ("z", "int(y) if H_ == M_ else int(y) * (H_ - L_) // (M_ - L_)"), ("A", "bi.encodeFloat(H_ - L_)"), ("B", "bi.encodeFloat(L_)")):
        s.code("order", f"benchmark encodeOrder: {kk}", f"bi.encodeOrder({rec})['{kk}']", w, P)
    enc = "{'y': y, 'z': k, 'A': A, 'B': B}"
    s.env.update(dA=s.ev("bi.decodeFloat(A)").value, dB=s.ev("bi.decodeFloat(B)").value)
    for kk, w in (("liquidity", "y"), ("lowestRate", f"(dB/{ONE})**2"), ("highestRate", f"((dB+dA)/{ONE})**2"), ("marginalRate", f"((dB + dA)/{ONE})**2 if y == k else ((dB + dA*y/k)/{ONE})**2")):
        s.code("order", f"benchmark decodeOrder: {kk}", f"bi.decodeOrder({enc})['{kk}']", w, pts(y=[5, 20], k=[20, 40], fA=[7, 3 * ONE + 6], fB=[1000, ONE + 5]))
    t = En(ck, ints=(), nums=("y", "l", "h", "m"))
    for kk in ("liquidity", "lowestRate", "highestRate", "marginalRate"):
        w = {"liquidity": "y", "lowestRate": "l", "highestRate": "h", "marginalRate": "m"}[kk]
        t.eq("order", f"benchmark reference, there and back: {kk}", w, f"bs.decodeOrder(bs.encodeOrder({rec}))['{kk}']")


def floatints(ck):
    s = En(ck, nums=("p", "q", "r"))
    for x in "pqr":
        s.I.settype(sym(x), ("int",))
    # every number of digits, up to the largest exponent
    sizes = []
    for n in (sym("v"), arith("mul", sym("v"), const(2 ** 64)), arith("mul", sym("v"), const(2 ** 48)), arith("mul", sym("v"), const(2 ** 32))):
        sizes.append([{sym("v"): const(0)}] + [{n: sym("q"), mk("bitlen", n): const(k)} for k in range(1, 296)])
    full = pts(v=[x for x in NUMS if x < 2 ** 296])
    over = [2 ** 295 - 1, 2 ** 295 - 2 ** 200, 2 ** 297, 2 ** 297 + 1, 2 ** 300]      # (whether an exponent of 256 fits is not settled by the documentation)
    e = "max(v.bit_length() - 40, 0)"
    for F_n, one in (("F", 64), ("F48", 48), ("F32", 32)):
        s.code("float", f"{F_n}.from_int: exponent", f"{F_n}.from_int(v).exponent", e, full, sizes[0])
        s.code("float", f"{F_n}.from_int: significant digits", f"{F_n}.from_int(v).significant", f"v >> {e}", full, sizes[0])
        s.code("float", f"{F_n}.from_int: number", f"{F_n}.from_int(v).asint", f"(v >> {e}) << {e}", full, sizes[0])
        s.code("float", f"{F_n}.from_int: int()", f"int({F_n}.from_int(v))", f"(v >> {e}) << {e}", full, sizes[0])
        s.code("float", f"{F_n}.from_int: hex", f"{F_n}.from_int(v).ashex", f"hex((v >> {e}) << {e})", full, sizes[0])
        s.code("float", f"{F_n}: float value", f"{F_n}(A, B).asfloat", f"(A << B) / 2**{one}", pts(A=[0, 1, 777, 2 ** 40 - 1], B=[0, 1, 5, 77]))
        s.code("float", f"{F_n}: float()", f"float({F_n}(A, B))", f"(A << B) / 2**{one}", pts(A=[0, 1, 777, 2 ** 40 - 1], B=[0, 1, 5, 77]))
        s.code("float", f"{F_n}.from_float: number", f"{F_n}.from_float(v).asint", f"((v * 2**{one}) >> max((v * 2**{one}).bit_length() - 40, 0)) << max((v * 2**{one}).bit_length() - 40, 0)", pts(v=[0, 1, 2, 3, 1000, 2 ** 20, 2 ** 60 + 1]), sizes[{64: 1, 48: 2, 32: 3}[one]])
        s.code("float", f"{F_n}: one", f"{F_n}(A, B).one", f"2**{one}", pts(A=[1], B=[1]))
        s.code("float", f"{F_n}: asint1", f"{F_n}(A, B).asint1", f"(A << B, 2**{one})", pts(A=[0, 1, 777], B=[0, 3]))
    s.code("float", "number of binary digits", "F.bindig(v)", "v.bit_length()", pts(v=NUMS))
    for w, a in (("max()", 0), ("max(3)", 3)):
        s.eq("float", f"{w}: digits", f"{2 ** 40 - 1 - a}", f"F.{w}.significant")
        s.eq("float", f"{w}: exponent", "255", f"F.{w}.exponent")
    s.eq("float", "min()", "1", "F.min().asint")
    s.eq("float", "min(2)", "3", "F.min(2).asint")
    s.eq("float", "asdict: digits", "A", "F(A, B).asdict['significant']")
    s.eq("float", "asdict: exponent", "B", "F(A, B).asdict['exponent']")
    s.eq("float", "asdict1: scale", "64", "F(A, B).asdict1['one_exponent']")
    s.eq("float", "astuple", "(A, B)", "F(A, B).astuple")
    s.eq("float", "astuple1", "(A, B, 32)", "F32(A, B).astuple1")
    # the exponent stays within its range
    for v in over:
        ok = v.bit_length() - 40 <= 255
        if ok:
            s.eq("float", f"from_int of {v.bit_length()} digits: exponent", str(v.bit_length() - 40), f"F.from_int({v}).exponent")
        else:
            s.rejects("float", f"from_int of {v.bit_length()} digits", f"F.from_int({v})")
    for bad in ("F.from_int(-5)", "F.from_int(2.5)", "F(1, -1)", "F(1.5, 1)", "F(1, 2.5)"):
        s.rejects("float", bad, bad)


def strategies(ck):
    OUI = "carbon.carbon_order_ui.CarbonOrderUI"
    for swap in (False, True):
        s = En(ck, ints=(), nums=("bl", "d1", "d2", "d3", "yb", "zb", "ys", "zs", "bb", "sb"))
        b, q = ("order1", "order0") if swap else ("order0", "order1")
        t0, t1 = ("'USDC'", "'ETH'") if swap else ("'ETH'", "'USDC'")
        token = mk("cls", s.I.qual("carbon.sdk.sdktoken.SDKToken"))
        known = {x: s.I.construct(token.args[0], [const(x), const("0xa1"), const(18)], {}, s.st, None) for x in ("ETH", "USDC")}

        def tokens(name, recv, a, kw, st):      # the list of known tokens has both tokens
            if name == "byticker" and a and a[0].op == "const" and cval(a[0]) in known:
                return known[cval(a[0])]
        s.I.meth_hook = tokens
        s.env.update(zb=s.sp("yb+zb"), zs=s.sp("ys+zs"))
        for x in ("bl", "d1", "d2", "d3", "bb", "sb", "yb", "zb", "ys", "zs"):
            s.I.settype(sym(x), ("float",))
        # numbers of the record are given as numbers; prices are squares
        s.env.update(p1=s.sp("bl**2"), p2=s.sp("(bl+d1)**2"), p3=s.sp("(bl+d1+d2)**2"), p4=s.sp("(bl+d1+d2+d3)**2"), V=mk("cls", s.I.qual(OUI)))
        rec = ("{'id': {'type': 'BigNumber', 'hex': '0x53'}, 'baseToken': 'ETH', 'quoteToken': 'USDC', 'buyPriceLow': p1, 'buyPriceHigh': p2, 'buyBudget': bb, 'sellPriceLow': p3, 'sellPriceHigh': p4, 'sellBudget': sb,"
               " 'encoded': {'token0': %s, 'token1': %s, '%s': {'y': yb, 'z': zb, 'A': 1, 'B': 2}, '%s': {'y': ys, 'z': zs, 'A': 3, 'B': 4}}}" % (t0, t1, q, b))
        nm = "strategy" + (" (tokens listed the other way)" if swap else "")
        for i, side, wants in ((0, "buying order", (("tkn", "'USDC'"), ("id", "'83-b'"), ("yint", "bb"), ("y", "bb*yb/zb"), ("pa", "p2"), ("pb", "p1"), ("pair.slashpair", "'ETH/USDC'"))),
                               (1, "selling order", (("tkn", "'ETH'"), ("id", "'83-s'"), ("yint", "sb"), ("y", "sb*ys/zs"), ("pa", "p3"), ("pb", "p4"), ("pair.slashpair", "'ETH/USDC'")))):
            for a, w in wants:
                s.eq("strategy", f"{nm}, {side}: {a}", w, f"V.from_SDK({rec})[{i}].{a}")
            s.eq("strategy", f"{nm}, {side}: linked order", "'83-s'" if i == 0 else "'83-b'", f"V.from_SDK({rec})[{i}].linked.id")
        # ... and the orders a simulator files for it, whatever the simulator's own pair is
        for dp in ("None", "'ETH/USDC'", "'USDC/ETH'", "'WBTC/BNT'"):
            if swap and dp != "None":
                continue
            s.env["sim"] = s.do(f"return Sim(raiseonerror=True, pair={dp})", Sim=mk("cls", s.I.qual("CarbonSimulatorUI")))
            where = f"{nm} filed{'' if dp == 'None' else ' in a simulator of ' + dp}"
            both = f"sim.add_fromsdk({rec})\nreturn [x for x in sim.orders.values() if x.tkn == "
            for t, o_, wants in (("'ETH'", "'USDC'", (("y", "sb*ys/zs"), ("y_int", "sb"), ("p_low", "1/p4"), ("p_high", "1/p3"))),
                                 ("'USDC'", "'ETH'", (("y", "bb*yb/zb"), ("y_int", "bb"), ("p_low", "p1"), ("p_high", "p2")))):
                for a, w in wants + (("pair.slashpair", "'ETH/USDC'"), ("disabled", "False"), ("carbon_id['hex']", "'0x53'")):
                    s.eq("strategy", f"{where}, order selling {t}: {a}", w, f"{both}{t}][0].{a}")
                s.eq("strategy", f"{where}, order selling {t}: linked order", "True", f"sim.add_fromsdk({rec})\nreturn [x for x in sim.orders.values() if x.tkn == {t}][0].linked_to_id == [x for x in sim.orders.values() if x.tkn == {o_}][0].id")
            s.eq("strategy", f"{where}: orders filed", "2", f"sim.add_fromsdk({rec})\nreturn len(sim.orders)")
    s.rejects("strategy", "tokens that do not match", "V.from_SDK(" + rec.replace("'baseToken': 'ETH'", "'baseToken': 'BTC'") + ")")


def main():
    ck = Check("C23", "Order encodings used by the benchmark and the contract interface agree", RULES, floor=80, assumptions=[
        "square roots of rates are exact (real arithmetic), integers are unbounded", "strategy numbers are real numbers"])
    for g in (codes, orders, floatints, strategies):
        try:
            g(ck)
        except Exception as e:
            ck.undecided("analysis", g.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
