"""Optimizer results: the trades a result reports, the token flows they add up to, the adjusted curves and the
reports derived from them, against the points of the curves at the result's prices (abstract evaluation of the
optimizer's methods on symbolic curves to rational normal forms)."""
from checks.c20 import *

RULES = {
    "flow": "the token flows of a price vector are the sums of the curves' moves to it",
    "trade": "a result's trade of a curve is the difference between its point at the result's prices and its current point",
    "instr": "trade instructions state the trades of the result, what goes in as positive and what comes out as negative",
    "adjust": "adjusting the curves moves each curve by its own trade and leaves out none",
    "result": "an optimizer's result consists of its prices, the flows at these prices and what was not solved for",
    "problem": "the convex problem constrains every curve and every token that is not optimized",
    "search": "the numeric searches follow their formulas and answer result objects",
    "reject": "results that are errors and ill-formed requests are refused",
}
OPT = "carbon.tools.optimizer"
CPCQ = "carbon.tools.cpc"
POS = [sym(x) for x in ("g1", "g2", "g3", "g4", "g5", "q1", "q2", "q3", "q4", "q5", "w", "l", "t", "u")]


def curve(s, cid, pair, g, q, lo=None, up=None):
    """curve with kbar g at square-root price q; full range, or from square-root price q-lo to q+up"""
    xa = s.sp("g/q", g=g, q=q) if up is None else s.sp("g/q-g/(q+u)", g=g, q=q, u=up)
    ya = s.sp("g*q", g=g, q=q) if lo is None else s.sp("g*n", g=g, n=lo)
    return s.I.construct(s.I.qual(f"{CPCQ}.ConstantProductCurve"), [], dict(k=s.sp("g**2", g=g), x=s.sp("g/q", g=g, q=q), x_act=xa, y_act=ya, pair=const(pair), cid=const(cid), fee=const(0)), s.st, None)


def optimizer(s, curves):
    s.env.update({c: v for c, v in curves})
    s.env["CC"] = s.I.construct(s.I.qual(f"{CPCQ}.CPCContainer"), [s.do(f"return [{', '.join(c for c, v in curves)}]")], {}, s.st, None)
    s.env["O"] = s.I.construct(s.I.qual(f"{OPT}.CPCArbOptimizer"), [s.env["CC"]], {}, s.st, None)


def scene(ck, extra=()):
    s = Sc(ck, POS + list(extra))
    for x in POS + list(extra):
        s.env[x.args[0]] = x
    return s


# curve: pair, kbar, square-root price, square root of the price vector's price of the pair
FIVE = (("ca", "WETH/USDC", 1, "w"), ("cb", "LINK/WETH", 2, "l/w"), ("cc", "USDC/WETH", 3, "1/w"), ("cd", "WETH/USDC", 4, "w"), ("ce", "LINK/USDC", 5, "l"))


def five(ck):
    s = scene(ck)
    optimizer(s, [(c, curve(s, c, pair, s.env[f"g{i}"], s.env[f"q{i}"])) for c, pair, i, r in FIVE])
    return s


def moves(cur, target=None):
    """{curve: (dx, dy)}, {token: flow} as formulas"""
    per, fl = {}, {}
    for c, pair, i, r in cur:
        dx, dy = f"g{i}/({r})-g{i}/q{i}", f"g{i}*({r})-g{i}*q{i}"
        per[c] = dx, dy
        for t, d in zip(pair.split("/"), (dx, dy)):
            fl[t] = f"{fl[t]}+{d}" if t in fl else d
    return per, fl


def main():
    ck = Check("C19", "Optimizer results account exactly for the curve trades they contain", RULES, floor=330, assumptions=[
        "exact arithmetic", "numpy's elementwise arithmetic and sums are those of vectors of numbers",
        "the numeric solvers (numpy.linalg, cvxpy) may answer anything: what is decided is how their answers are used"])
    for part in (flows, trades, nofees_values, instructions, adjust, refusals, searches, constraints_sfc, problem, margp, simple_results, ranges):
        try:
            part(ck)
        except Exception as e:
            ck.undecided("flow", part.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


def flows(ck):
    s = five(ck)
    per, fl = moves(FIVE)
    f = "O.margp_optimizer('USDC', result=O.MO_DTKNFROMPF)"
    for i, t in enumerate(("LINK", "WETH")):
        s.eq("flow", f"margp: flow of {t}", fl[t], f"{f}([l**2, w**2], islog10=False)[{i}]")
        s.eq("flow", f"margp: flow of {t}, vector of the pair", fl[t], f"{f}([l**2, w**2], islog10=False, asdct=True)[1][{i}]")
    for t in fl:
        s.eq("flow", f"margp: flow of {t} in the dict", fl[t], f"{f}([l**2, w**2], islog10=False, asdct=True)[0]['{t}']")
    s.eq("flow", "margp: number of flows", "2", f"len({f}([l**2, w**2], islog10=False))")
    s.eq("flow", "margp: number of flows in the dict", "3", f"len({f}([l**2, w**2], islog10=False, asdct=True)[0])")
    s.rejects("flow", "margp: price vector of another length", f"{f}([w**2], islog10=False)")


# three curves whose moves to the square-root price n+o have known directions
THREE = (("ca", "WETH/USDC", 1, "(n+o)"), ("cb", "USDC/WETH", 2, "1/(n+o)"), ("cc", "WETH/USDC", 3, "(n+o)"))
N_, O_, R_ = sym("n"), sym("o"), sym("r")
AMTS = (("dx0", "g1/(n+o)-g1/n"), ("dy0", "g1*o"))


def three(ck, order=("ca", "cb", "cc")):
    """ca bought (x falls), cb: the price of its own base rises to 1/(n+o) from 1/(n+o+r): x falls, cc sold"""
    s = scene(ck, (N_, O_, R_))
    s.env["P"] = s.sp("(n+o)**2")
    cs = dict([("ca", curve(s, "ca", "WETH/USDC", s.env["g1"], N_)), ("cb", curve(s, "cb", "USDC/WETH", s.env["g2"], s.sp("1/(n+o+r)"))), ("cc", curve(s, "cc", "WETH/USDC", s.env["g3"], s.sp("n+o+r")))])
    optimizer(s, [(c, cs[c]) for c in order])
    return s


# curve: dx, dy, own base, own quote
TRADES = {"ca": ("g1/(n+o)-g1/n", "g1*(n+o)-g1*n", "WETH", "USDC"), "cb": ("g2*(n+o)-g2*(n+o+r)", "g2/(n+o)-g2/(n+o+r)", "USDC", "WETH"), "cc": ("g3/(n+o)-g3/(n+o+r)", "g3*(n+o)-g3*(n+o+r)", "WETH", "USDC")}
MARGP = "O.MargpOptimizerResult(result=1.0, time=0, optimizer=O, targettkn='USDC', curves=CC, p_optimal={'WETH': P}, p_optimal_t=(P,), dtokens={}, dtokens_t=(1,), tokens_t=('WETH',))"
def simple(s):
    s.env["W"] = s.do("from carbon.tools.cpc import CPCInverter\nreturn CPCInverter.wrap(CC)")
    for v, r in (("vec", "dxdyvecfunc"), ("sm", "dxdysumfunc"), ("vx", "dxdyvalxfunc"), ("vy", "dxdyvalyfunc")):
        s.env[v] = s.do(f"return O.simple_optimizer(result='{r}')")
    s.env["SR"] = s.do("return O.SimpleOptimizerResult(result=1.0, time=0, curves=W, dxdyfromp_vec_f=vec, dxdyfromp_sum_f=sm, dxdyfromp_valx_f=vx, dxdyfromp_valy_f=vy, p_optimal=P, optimizer=O)")


def trades(ck):
    s = three(ck)
    s.env["M"] = s.do("return " + MARGP)
    per = list(TRADES.items())
    for i, (c, (dx, dy, b, q)) in enumerate(per):
        s.eq("trade", f"margp: dx of {c}", dx, f"M.dxvalues[{i}]")
        s.eq("trade", f"margp: dy of {c}", dy, f"M.dyvalues[{i}]")
        s.eq("trade", f"margp: dx, dy of {c}", mk("tuple", s.sp(dx), s.sp(dy)), f"M.dxdyvalues()[{i}]")
        s.eq("trade", f"margp: dx, dy of {c} by name", mk("tuple", s.sp(dx), s.sp(dy)), f"M.dxdyvalues(asdict=True)['{c}']")
    s.eq("trade", "margp: number of trades", "3", "len(M.dxvalues)")
    s.eq("trade", "margp: number of trades by name", "3", "len(M.dxdyvalues(asdict=True))")
    s.eq("trade", "margp: price", "P", "M.price('WETH', 'USDC')")
    s.eq("trade", "margp: price, the other way round", "1/P", "M.price('USDC', 'WETH')")
    s.eq("trade", "margp: price of a token in itself", "1", "M.price('WETH', 'WETH')")
    s.eq("trade", "margp: the value as a number", "1", "float(M)")
    s.eq("trade", "margp: not an error", const(False), "M.is_error")
    s.eq("trade", "margp: error", const(None), "M.error")
    # instructions and adjusted curves
    for i, (c, (dx, dy, b, q)) in enumerate(per):
        inn, out = ((q, dy), (b, dx)) if c != "cc" else ((b, dx), (q, dy))
        for what, res in (("margp", "M.trade_instructions()"), ("margp (dicts)", "M.trade_instructions('dicts')")):
            get = (lambda a: f"{res}[{i}].{a}") if "dicts" not in what else (lambda a: f"{res}[{i}]['{a}']")
            s.eq("instr", f"{what}: in amount of {c}", inn[1], get("amtin"))
            s.eq("instr", f"{what}: out amount of {c}", out[1], get("amtout"))
            s.eq("instr", f"{what}: in token of {c}", const(inn[0]), get("tknin"))
            s.eq("instr", f"{what}: out token of {c}", const(out[0]), get("tknout"))
            s.eq("instr", f"{what}: curve {c}", const(c), get("cid"))
        s.same("instr", f"margp: the curve object of {c}", s.env[c], f"M.trade_instructions()[{i}].curve")
        s.eq("adjust", f"margp: x of {c}", f"{inv(c, 'x')}+({dx})", f"M.curves_new.curves[{i}].x")
        s.eq("adjust", f"margp: y of {c}", f"{inv(c, 'y')}+({dy})", f"M.curves_new.curves[{i}].y")
        s.eq("adjust", f"margp: k of {c}", f"({inv(c, 'x')})*({inv(c, 'y')})", f"M.curves_new.curves[{i}].k")
    s.eq("instr", "margp: number", "3", "len(M.trade_instructions())")
    s.eq("adjust", "margp: number of curves", "3", "len(M.curves_new)")
    # simple optimizer: the wrapped curves all have WETH as their base
    simple(s)
    one = {"ca": TRADES["ca"][:2], "cb": TRADES["cb"][1::-1], "cc": TRADES["cc"][:2]}
    X, Y = "+".join(f"({a})" for a, b in one.values()), "+".join(f"({b})" for a, b in one.values())
    for i, (c, (dx, dy)) in enumerate(one.items()):
        s.eq("trade", f"simple: dx of {c}", dx, f"SR.dxvalues[{i}]")
        s.eq("trade", f"simple: dy of {c}", dy, f"SR.dyvalues[{i}]")
        s.eq("trade", f"simple: vector of {c}, x", dx, f"SR.dxdy_vec[{i}][0]")
        s.eq("trade", f"simple: vector of {c}, y", dy, f"SR.dxdy_vec[{i}][1]")
        s.eq("trade", f"simple: vectors of {c}, x", dx, f"SR.dxdy_vecs[0][{i}]")
        s.eq("trade", f"simple: vectors of {c}, y", dy, f"SR.dxdy_vecs[1][{i}]")
        inn, out = (("USDC", dy), ("WETH", dx)) if c == "ca" else (("WETH", dx), ("USDC", dy))
        if c == "cb":
            inn, out = (("WETH", dx), ("USDC", dy))
        s.eq("instr", f"simple: in amount of {c}", inn[1], f"SR.trade_instructions()[{i}].amtin")
        s.eq("instr", f"simple: out amount of {c}", out[1], f"SR.trade_instructions()[{i}].amtout")
        s.eq("instr", f"simple: in token of {c}", const(inn[0]), f"SR.trade_instructions()[{i}].tknin")
        s.eq("instr", f"simple: out token of {c}", const(out[0]), f"SR.trade_instructions()[{i}].tknout")
        s.eq("instr", f"simple: curve {c}", const(c), f"SR.trade_instructions()[{i}].cid")
    s.eq("instr", "simple: number", "3", "len(SR.trade_instructions())")
    for a, w in (("dxdy_sum[0]", X), ("dxdy_sum[1]", Y), ("dxdy_valx", f"{X}+({Y})/P"), ("valx", f"{X}+({Y})/P"), ("dxdy_valy", f"({X})*P+{Y}"), ("valy", f"({X})*P+{Y}")):
        s.eq("flow", f"simple: {a}", w, f"SR.{a}")
    for a, w in (("tknx", "WETH"), ("tkny", "USDC"), ("pair", "WETH/USDC")):
        s.eq("trade", f"simple: {a}", const(w), f"SR.{a}")
    s.eq("trade", "simple: not an error", const(False), "SR.is_error")


def inv(c, a):
    i, q = {"ca": (1, "n"), "cb": (2, "1/(n+o+r)"), "cc": (3, "(n+o+r)")}[c]
    return f"g{i}/({q})" if a == "x" else f"g{i}*({q})"


def holder(s, name, value):
    """an object with that value (stands for a variable of the solver)"""
    s.env[name] = s.do("return O.SimpleResult(result=1.0)")
    s.do(f"{name}.value = {value}")


def nofees_values(ck):
    s = three(ck)
    s.env.update({k: sym(k) for k in ("d1", "d2", "d3", "e1", "e2", "e3", "s1", "s2", "s3")})
    s.f.positive += [sym(k) for k in ("s1", "s2", "s3")]
    for k in ("s1", "s2", "s3"):
        s.I.settype(sym(k), ("float",))
    holder(s, "VX", "[d1, d2, d3]")
    holder(s, "VY", "[e1, e2, e3]")
    s.env["dxv"] = scaled(s, "VX, [s1, s2, s3], ['WETH', 'USDC', 'WETH']")
    s.env["dyv"] = scaled(s, "VY, [s2, s1, s2], ['USDC', 'WETH', 'USDC']")
    for i, (c, a, b) in enumerate((("ca", "d1/s1", "e1/s2"), ("cb", "d2/s2", "e2/s1"), ("cc", "d3/s3", "e3/s2"))):
        s.eq("trade", f"convex: dx of {c} in units of the token", a, f"dxv.value[{i}]")
        s.eq("trade", f"convex: dy of {c} in units of the token", b, f"dyv.value[{i}]")
    s.env["one"] = scaled(s, "VX, s1")
    for i in range(3):
        s.eq("trade", f"convex: one scale for all, {i}", f"d{i + 1}/s1", f"one.value[{i}]")
    s.rejects("reject", "scales of another number", "ScaledVariable(VX, [s1, s2])", ScaledVariable=mk("cls", s.I.qual(f"{OPT}.ScaledVariable")), none_ok=False)
    s.rejects("reject", "tokens of another number", "ScaledVariable(VX, [s1, s2, s3], ['a'])", ScaledVariable=mk("cls", s.I.qual(f"{OPT}.ScaledVariable")), none_ok=False)
    # the result built on them; the variables hold the moves of the scene
    t = three(ck)
    t.env["s1"], t.env["s2"] = sym("s1"), sym("s2")
    t.f.positive += [sym("s1"), sym("s2")]
    for (c, (dx, dy, b, q)) in TRADES.items():
        t.env["x" + c], t.env["y" + c] = t.sp(dx), t.sp(dy)
    holder(t, "VX", "[xca*s1, xcb*s2, xcc*s1]")
    holder(t, "VY", "[yca*s2, ycb*s1, ycc*s2]")
    t.env["dxv"], t.env["dyv"] = scaled(t, "VX, [s1, s2, s1]"), scaled(t, "VY, [s2, s1, s2]")
    t.env["PB"] = t.do("return O.SimpleResult(result=1.0)")
    t.do("from carbon.tools import optimizer\nPB.status = optimizer.cp.OPTIMAL")
    t.env["R"] = t.do("return O.NofeesOptimizerResult(problem=PB, sfc=O.SFCa('USDC'), result=1.5, time=0, dx=dxv, dy=dyv, token_table={}, curves=CC, optimizer=O)")
    t.eq("trade", "convex: not an error", const(False), "R.is_error")
    for i, (c, (dx, dy, b, q)) in enumerate(TRADES.items()):
        inn, out = ((q, dy), (b, dx)) if c != "cc" else ((b, dx), (q, dy))
        t.eq("trade", f"convex: dx of {c}", dx, f"R.dxvalues[{i}]")
        t.eq("trade", f"convex: dy of {c}", dy, f"R.dyvalues[{i}]")
        t.eq("instr", f"convex: in amount of {c}", inn[1], f"R.trade_instructions()[{i}].amtin")
        t.eq("instr", f"convex: out amount of {c}", out[1], f"R.trade_instructions()[{i}].amtout")
        t.eq("instr", f"convex: in token of {c}", const(inn[0]), f"R.trade_instructions()[{i}].tknin")
        t.eq("instr", f"convex: out token of {c}", const(out[0]), f"R.trade_instructions()[{i}].tknout")
        t.eq("instr", f"convex: curve {c}", const(c), f"R.trade_instructions()[{i}].cid")
        t.eq("adjust", f"convex: x of {c}", f"{inv(c, 'x')}+({dx})", f"R.curves_new.curves[{i}].x")
        for r, inclk in (("R.dxdydf(asdict=True)", False), ("R.dxdydf(asdict=True, inclk=True)", True)):
            n = "with k" if inclk else "without k"
            t.eq("trade", f"convex: table {n}, curve {c}", const(c), f"{r}[{i}]['cid']")
            t.eq("trade", f"convex: table {n}, dx of {c}", dx, f"{r}[{i}]['{b}']")
            t.eq("trade", f"convex: table {n}, dy of {c}", dy, f"{r}[{i}]['{q}']")
            t.eq("trade", f"convex: table {n}, relative k of {c}", f"({inv(c, 'x')}+({dx}))*({inv(c, 'y')}+({dy}))/(({inv(c, 'x')})*({inv(c, 'y')}))", f"{r}[{i}]['kk']")
        t.eq("trade", f"convex: table with k, k of {c}", f"({inv(c, 'x')}+({dx}))*({inv(c, 'y')}+({dy}))", f"R.dxdydf(asdict=True, inclk=True)[{i}]['kpost']")
    t.eq("instr", "convex: number", "3", "len(R.trade_instructions())")


def scaled(s, args):
    return s.do("from carbon.tools.optimizer import ScaledVariable\nreturn ScaledVariable(%s)" % args)


def instructions(ck):
    s = scene(ck, (N_, O_, R_))
    s.env["TI"] = mk("cls", s.I.qual(f"{OPT}.CPCArbOptimizer.TradeInstruction"))
    for nm, call in (("first in", "TI.new('c', 'AAA', n, 'BBB', -o)"), ("second in", "TI.new('c', 'BBB', -o, 'AAA', n)"), ("direct", "TI('c', 'AAA', n, 'BBB', -o)")):
        for a, w in (("tknin", const("AAA")), ("tknout", const("BBB")), ("amtin", "n"), ("amtout", "-o"), ("cid", const("c")), ("is_empty", const(False)),
                     ("price_outperin", "o/n"), ("price_inperout", "n/o"), ("p", "o/n"), ("pr", "n/o"), ("prices[0]", "o/n"), ("prices[1]", "n/o"), ("pp[0]", "o/n")):
            s.eq("instr", f"{nm}: {a}", w, f"{call}.{a}")
    for f, a in (("TI.to_dicts", ""), ("TI.to_format", ", 'dicts'")):
        call = f"{f}([TI.new('c', 'AAA', n, 'BBB', -o), TI.new('d', 'AAA', -r, 'BBB', o)]{a})"
        s.eq("instr", f"{f}: number", "2", f"len({call})")
        for i, row in enumerate((("c", "AAA", "n", "BBB", "-o"), ("d", "BBB", "o", "AAA", "-r"))):
            for k, w in zip(("cid", "tknin", "amtin", "tknout", "amtout"), row):
                s.eq("instr", f"{f} {i}: {k}", w if k in ("amtin", "amtout") else const(w), f"{call}[{i}]['{k}']")
    call = "TI.to_format([TI.new('c', 'AAA', n, 'BBB', -o), TI.new('d', 'AAA', -r, 'BBB', o)])"
    s.eq("instr", "objects: number", "2", f"len({call})")
    s.eq("instr", "objects: second", "-r", f"{call}[1].amtout")
    s.eq("instr", "amounts that are zero make an empty instruction", const(True), "TI.new('c', 'AAA', 0, 'BBB', 0).is_empty")
    for nm, src in (("both in", "TI.new('c', 'AAA', 1+n, 'BBB', o)"), ("both out", "TI.new('c', 'AAA', -1-n, 'BBB', -o)"), ("in is negative", "TI('c', 'AAA', -1-n, 'BBB', o)"), ("one token", "TI.new('c', 'AAA', n, 'AAA', -o)"),
                    ("in but not out", "TI.new('c', 'AAA', 1+n, 'BBB', 0)"), ("out but not in", "TI.new('c', 'AAA', 0, 'BBB', -1-n)")):
        s.rejects("reject", f"instruction: {nm}", src, none_ok=False)


def adjust(ck):
    s = three(ck)
    for i, (c, (dx, dy, b, q)) in enumerate(TRADES.items()):
        s.env["x" + c] = s.sp(dx)
    call = "O.adjust_curves([xca, xcb, xcc])"
    s.eq("adjust", "number of curves", "3", f"len({call})")
    for i, (c, (dx, dy, b, q)) in enumerate(TRADES.items()):
        s.eq("adjust", f"x of {c}", f"{inv(c, 'x')}+({dx})", f"{call}.curves[{i}].x")
        s.eq("adjust", f"y of {c}", f"{inv(c, 'y')}+({dy})", f"{call}.curves[{i}].y")
        s.eq("adjust", f"available x of {c}", f"{inv(c, 'x')}+({dx})", f"{call}.curves[{i}].x_act")
        s.eq("adjust", f"available y of {c}", f"{inv(c, 'y')}+({dy})", f"{call}.curves[{i}].y_act")
        s.eq("adjust", f"k of {c}", f"({inv(c, 'x')})*({inv(c, 'y')})", f"{call}.curves[{i}].k")
        s.eq("adjust", f"pair of {c}", s.ev(f"{c}.pair").value, f"{call}.curves[{i}].pair")
        s.eq("adjust", f"{c} itself stays as it is", inv(c, "x"), f"[{call}, {c}.x][1]")
    s.eq("adjust", "no trades, no curves", const(None), "O.adjust_curves(None)")
    s.rejects("reject", "no trades", "O.adjust_curves(None, raiseonerror=True)", none_ok=False)


ERR = "result=None, time=0, errormsg='no', p_optimal=None, optimizer=O"


def refusals(ck):
    s = three(ck)
    s.env["P"] = s.sp("(n+o)**2")
    s.env["ME"] = s.do(f"return O.MargpOptimizerResult({ERR}, p_optimal_t=None, targettkn='USDC', curves=CC)")
    s.env["MM"] = s.do("return O.MargpOptimizerResult(result=1.0, time=0, optimizer=None, targettkn='USDC', curves=None, p_optimal=None, p_optimal_t=(P,))")
    s.env["SE"] = s.do(f"return O.SimpleOptimizerResult({ERR}, curves=[ca, cc])")
    s.env["E"] = s.do("return O.SimpleResult(result=None, errormsg='no')")
    for nm, v, attrs in (("margp error", "ME", ("dxvalues", "dyvalues", "dxdyvalues()", "dxdyvalues(asdict=True)", "curves_new", "trade_instructions()", "price('WETH', 'USDC')")),
                         ("minimal margp", "MM", ("dxvalues", "dyvalues", "dxdyvalues()", "curves_new", "trade_instructions()", "price('WETH', 'USDC')"))):
        for a in attrs:
            s.rejects("reject", f"{nm} result: {a}", f"{v}.{a}", none_ok=False)
    s.rejects("reject", "error as a number", "float(E)", none_ok=False)
    for nm, v in (("margp", "ME"), ("simple", "SE"), ("search", "E")):
        s.eq("result", f"{nm}: is an error", const(True), f"{v}.is_error")
    for nm, v in (("margp", "ME"), ("simple", "SE")):
        s.eq("result", f"{nm}: error text", const("no"), f"{v}.error")
        s.eq("result", f"{nm}: status of an error", const("error"), f"{v}.status")
    s.eq("result", "margp: status", const("converged"), "MM.status")
    s.eq("result", "search: not an error", const(False), "O.SimpleResult(result=1.0).is_error")
    s.eq("result", "search: value", "P", "float(O.SimpleResult(result=P))")
    for nm, src in (("margp result without prices", "O.MargpOptimizerResult(result=1.0, time=0, optimizer=O)"), ("simple result without price", "O.SimpleOptimizerResult(result=1.0, time=0, optimizer=O)"),
                    ("two targets", "O.SFC(WETH=O.AMMPays, USDC=O.AMMPays)"), ("no target", "O.SFC(WETH=1)"), ("token that is not there", "O.SFC(LINK=O.AMMPays)"),
                    ("value of another token", "O.SFC(WETH=O.AMMPays).get('LINK')"), ("target that is not there", "O.margp_optimizer('LINK')"),
                    ("constraints of other tokens", "O.margp_optimizer(O.SFC(WETH=O.AMMPays, USDC=1))"), ("target of another pair", "O.simple_optimizer('LINK')"),
                    ("target asked for but not given", "O.simple_optimizer(result='targettkn')"), ("target given for the overall value", "O.simple_optimizer('WETH', result='globalmax')")):
        s.rejects("reject", nm, src, none_ok=False)
    f = five(ck)
    f.rejects("reject", "simple: curves of more than one pair", "O.simple_optimizer(result='dxdysumfunc')", none_ok=False)


def constraints_sfc(ck):
    s = three(ck)
    s.env["S"] = s.do("return O.SFC(WETH=O.AMMPays)")
    s.env["V"] = s.do("return O.SFCd(dict(USDC=O.AMMReceives, WETH=n))")
    s.env["A"] = s.do("return O.arb('USDC')")
    for v, t, o in (("S", "WETH", "USDC"), ("V", "USDC", "WETH"), ("A", "USDC", None)):
        s.eq("problem", f"{v}: target", const(t), f"{v}.optimizationvar")
        s.eq("problem", f"{v}: target is none of the constraints", const(False), f"{v}.is_constraint('{t}')")
        s.eq("problem", f"{v}: target is optimized", const(True), f"{v}.is_optimizationvar('{t}')")
        if o:
            s.eq("problem", f"{v}: others are constraints", const(True), f"{v}.is_constraint('{o}')")
            s.eq("problem", f"{v}: others are not optimized", const(False), f"{v}.is_optimizationvar('{o}')")
            s.eq("problem", f"{v}: tokens", mk("tuple", const("USDC"), const("WETH")), f"tuple({v}.tokens_l)")
    s.eq("problem", "S: the other token adds up to nothing", "0", "S.get('USDC')")
    s.eq("problem", "S: in the dict", "0", "S.asdict()['USDC']")
    s.eq("problem", "S: called", "0", "S('USDC')")
    s.eq("problem", "V: value", "n", "V.get('WETH')")
    s.eq("problem", "V: value in the dict", "n", "V.asdict()['WETH']")
    s.eq("problem", "V: number of tokens", "2", "len(V.asdict())")
    s.eq("problem", "S: number of tokens given", "1", "len(S.asdict(short=True))")
    s.eq("problem", "S is an arbitrage", const(True), "S.is_arbsfc()")
    s.eq("problem", "V is none", const(False), "V.is_arbsfc()")
    s.eq("problem", "A is an arbitrage", const(True), "A.is_arbsfc()")


def searches(ck):
    s = scene(ck, (N_, O_, R_))
    optimizer(s, [("ca", curve(s, "ca", "WETH/USDC", s.env["g1"], N_)), ("cb", curve(s, "cb", "WETH/USDC", s.env["g2"], O_))])
    h = ck_const(s, "O.DERIVEPS")
    s.env["h"] = h
    f = "(lambda v: n*v**3 + o*v)"
    F = lambda v: f"(n*({v})**3 + o*({v}))"
    D1 = f"(({F('r+h')}) - {F('r-h')})/(2*h)"
    D2 = f"({F('r+h')} - 2*{F('r')} + {F('r-h')})/(h*h)"
    s.eq("search", "derivative", D1, f"O.deriv({f}, r)")
    s.eq("search", "second derivative", D2, f"O.deriv2({f}, r)")
    q = "(lambda v: n*v**2 + o*v)"
    s.eq("search", "descent: one step", f"r - u*(2*n*r+o)", f"O.findmin_gd({q}, r, learning_rate=u, N=1).result")
    s.eq("search", "ascent: one step", f"r + u*(2*n*r+o)", f"O.findmax_gd({q}, r, learning_rate=u, N=1).result")
    s.eq("search", "descent: two steps", f"(r - u*(2*n*r+o)) - u*(2*n*(r - u*(2*n*r+o))+o)", f"O.findmin_gd({q}, r, learning_rate=u, N=2).result")
    s.eq("search", "Newton: one step", f"r - (2*n*r+o)/(2*n)", f"O.findminmax_nr({q}, r, N=1).result")
    s.eq("search", "Newton: no step", f"r", f"O.findminmax_nr({q}, r, N=0).result")
    s.eq("search", "minimum by Newton", f"r - (2*n*r+o)/(2*n)", f"O.findmin({q}, r, N=1).result")
    s.eq("search", "maximum by Newton", f"r - (2*n*r+o)/(2*n)", f"O.findmax({q}, r, N=1).result")
    for i, (a, b) in enumerate((("n", "0"), ("0", "-o"), ("0", "0"))):
        s.eq("search", f"positive part {i}", a, f"O.posx([n, -o, 0])[{i}]")
        s.eq("search", f"negative part {i}", b, f"O.negx([n, -o, 0])[{i}]")
        s.eq("search", f"positive part of a vector {i}", a, f"O.posx(O.a([n, -o, 0]))[{i}]")
        s.eq("search", f"negative part of a vector {i}", b, f"O.negx(O.a([n, -o, 0]))[{i}]")
    s.eq("search", "values of a function", mk("tuple", s.sp("n**2"), s.sp("o**2")), "tuple(O.F(lambda v: v**2, [n, o]))")
    # between two ends that are closer than the precision, the middle
    e = ck_const(s, "O.GOALSEEKEPS")
    s.env["e"] = e
    s.eq("search", "zero: ends that are close enough", "n", "O.goalseek(lambda v: v-n, n-e/4, n+e/4).result")
    for nm, fn, a, b, want in (("rising", "lambda v: v-n", "n-e", "n+e/2", "n+e/8"), ("zero in the middle", "lambda v: v-n", "n-e", "n+e", "n"),
                               ("falling", "lambda v: n-v", "n-e", "n+e/2", "n+e/8"), ("in the upper half", "lambda v: v-n-3*e/8", "n-e/2", "n+3*e/4", None)):
        if want is None:
            continue
        s.eq("search", f"zero: {nm}", want, f"O.goalseek({fn}, {a}, {b}).result")
    s.eq("search", "zero at the lower end", "n+e*3/8", "O.goalseek(lambda v: v-n, n, n+e*3/2).result")
    s.rejects("reject", "no change of sign", "O.goalseek(lambda v: v*v+n, -1, 1)", none_ok=False)
    j = ck_const(s, "O.JACEPS")
    s.env["j"] = j
    for r in range(2):
        for c in range(2):
            want = (("n*2*r + n*r*j", "o"), ("u", "t"))[r][c]
            s.eq("search", f"jacobian {r}{c}", want, f"O.jacobian(lambda v: O.a([n*v[0]**2 + o*v[1], u*v[0] + t*v[1]]), O.a([r, l]))[{r}, {c}]")


def ck_const(s, src):
    return s.ev(src).value


def flat(t):
    if t.op == "mul" and any(x.op == "const" and cval(x) == 1 for x in t.args):
        rest = [x for x in t.args if not (x.op == "const" and cval(x) == 1)]
        return flat(rest[0]) if len(rest) == 1 else [t]
    return [y for x in t.args for y in flat(x)] if t.op == "add" else [t]


class Cv:
    """cvxpy as a recorder: variables are vectors of numbers, what a problem consists of is kept"""

    def __init__(self, s):
        self.s, self.n, self.vars, self.made, self.solved = s, 0, [], [], []
        s.I.ext_hook, s.I.meth_hook, s.I.attr_hook = self.ext, self.meth, self.attr

    def ext(self, name, a, kw, st):
        I = self.s.I
        if not name.startswith("cvxpy."):
            return None
        n = name[6:]
        if n == "Variable":
            v = mk("vec", *[sym(f"v{self.n}_{i}") for i in range(cval(a[0]))])
            self.n += 1
            self.vars.append(v)
            return v
        if n == "hstack":
            return a[0]
        if n in ("geo_mean", "sum", "sum_entries"):
            es = [x.args[0] for x in I.pieces_as_segs(a[0], st)]
            if n == "geo_mean":
                return mk("sqrt", arith("mul", *es)) if len(es) == 2 else None
            r = const(0)
            for e in es:
                r = e if r is const(0) else arith("add", r, e)
            return r
        if n in ("Minimize", "Maximize"):
            return mk("tuple", const(n), a[0])
        if n == "Problem":
            self.made.append((a[0], [x.args[0] for x in I.pieces_as_segs(a[1], st)]))
            return sym(f"problem{len(self.made)}")

    def meth(self, name, recv, a, kw, st):
        if recv.op == "sym" and str(recv.args[0]).startswith("problem") and name == "solve":
            self.solved.append(kw)
            return sym("optimum")

    def attr(self, b, name):
        if b in self.vars and name == "value":
            return b
        if b.op == "sym" and str(b.args[0]).startswith("problem") and name == "status":
            return sym("status")


def problem(ck):
    for nm, call, other in (("arb", "O.nofees_optimizer(O.SFCa('USDC'))", {}), ("token", "O.nofees_optimizer('USDC')", {}), ("pays", "O.nofees_optimizer(O.SFC(USDC=O.AMMPays))", {}),
                            ("amount", "O.nofees_optimizer(O.SFC(USDC=O.AMMReceives, LINK=5))", {"LINK": 5}), ("no ranges", "O.nofees_optimizer('USDC', nominconstr=True)", {}),
                            ("upper ranges", "O.nofees_optimizer('USDC', maxconstr=True)", {}), ("solver", "O.nofees_optimizer('USDC', solver='ECOS', s_a=1)", {})):
        s = scene(ck, (N_, O_, sym("su"), sym("sw"), sym("sl")))
        sc = {"USDC": "su", "WETH": "sw", "LINK": "sl"}
        lo, up = ("n", "u") if nm in ("pays", "upper ranges") else (None, None)
        cs = []
        for c, pair, i, r in FIVE:
            q = s.sp("n+o") if lo and i == 1 else s.env[f"q{i}"]
            cs.append((c, curve(s, c, pair, s.env[f"g{i}"], q, *((s.sp("o"), s.env["u"]) if lo and i == 1 else ()))))
        s.env["TS"] = s.do("from carbon.tools.tokenscale import TokenScale\nreturn TokenScale(scale_dct={'USDC': su, 'WETH': sw, 'LINK': sl})")
        s.env.update(dict(cs))
        s.env["CC"] = s.do("from carbon.tools.cpc import CPCContainer\nreturn CPCContainer([ca, cb, cc, cd, ce], tokenscale=TS)")
        s.env["O"] = s.do("from carbon.tools.optimizer import CPCArbOptimizer\nreturn CPCArbOptimizer(CC)")
        cv = Cv(s)
        try:
            s.env["R"] = s.do("return " + call)
        except Dead:
            ck.bad("problem", f"{nm}: set up", "the call always fails")
            continue
        if len(cv.made) != 1 or len(cv.vars) != 2:
            ck.undecided("problem", f"{nm}: set up", "not one problem in two variables")
            continue
        (obj, got), C = cv.made[0], s.f.canon()
        for i in range(5):
            s.env[f"X{i}"], s.env[f"Y{i}"] = s.ev(f"R.dx.v[{i}]").value, s.ev(f"R.dy.v[{i}]").value
        want, sums = {}, {}
        for i, (c, pair, k, r) in enumerate(FIVE):
            b, q = pair.split("/")
            Q = "(n+o)" if lo and k == 1 else f"q{k}"
            xa, ya = (f"g{k}/{Q}-g{k}/({Q}+u)", f"g{k}*o") if lo and k == 1 else (f"g{k}/{Q}", f"g{k}*{Q}")
            dx, dy = f"X{i}/{sc[b]}", f"Y{i}/{sc[q]}"
            want[f"invariant of {c}"] = s.sp(f"((g{k}/{Q}+{dx})*(g{k}*{Q}+{dy}))**0.5 >= g{k}")
            if nm != "no ranges":
                want[f"lower end of x of {c}"] = s.sp(f"{dx} >= -({xa})")
                want[f"lower end of y of {c}"] = s.sp(f"{dy} >= -({ya})")
            if nm == "upper ranges" and lo and k == 1:
                want[f"upper end of x of {c}"] = s.sp(f"{dx} <= g{k}/({Q}-o)-g{k}/{Q}")
                want[f"upper end of y of {c}"] = s.sp(f"{dy} <= g{k}*({Q}+u)-g{k}*{Q}")
            for t, v in ((b, f"X{i}"), (q, f"Y{i}")):
                sums[t] = f"{sums[t]}+{v}" if t in sums else v
        for t in ("LINK", "WETH"):
            want[f"balance of {t}"] = EQ(s.sp(sums[t]), s.sp(f"{other.get(t, 0)}*{sc[t]}"))
        free = lambda t: {x for x in subterms(t) if x.op == "sym" and x.args[0][0] == "v" and "_" in str(x.args[0])}
        loose = [g for g in got if not any(C.equivalent(g, e) for e in want.values())]
        for k, e in want.items():
            # implied by all of them; or else by none of those that speak of these variables
            ok = True if any(C.equivalent(g, e) for g in got) or C.implies(AND(*got), e) else None if any(unknown(C, g) for g in loose) else False
            for g in loose if ok is False else ():
                if free(e) <= free(g) and not (g.op == e.op == "eq" or C.refuted(g, e)):
                    ok = None
            ck.decide(ok, "problem", f"{nm}: {k}", "is not among the constraints")
        for i, g in enumerate(got):
            ok = True if g not in loose or C.implies(AND(*want.values()), g) else None if unknown(C, g) else False
            for e in want.values() if ok is False else ():
                if free(g) <= free(e) and not (g.op == e.op == "eq" or C.refuted(e, g)):
                    ok = None
            ck.decide(ok, "problem", f"{nm}: constraint {i} is one of these", f"{brief(g, 200)} is none of them")
        if obj.op == "tuple":
            ck.decide(obj.args[0] is const("Minimize"), "problem", f"{nm}: what is asked for", f"{obj.args[0]} instead of the minimum of what the curves take in")
            s.f.expect("problem", f"{nm}: objective", fixed(s, obj.args[1]), s.sp(sums["USDC"]))
        for i, (c, pair, k, r) in enumerate(FIVE):
            b, q = pair.split("/")
            s.eq("result", f"{nm}: dx of {c}", f"X{i}/{sc[b]}", f"R.dxvalues[{i}]")
            s.eq("result", f"{nm}: dy of {c}", f"Y{i}/{sc[q]}", f"R.dyvalues[{i}]")
        s.same("result", f"{nm}: curves", s.env["CC"], "R.curves")
        s.same("result", f"{nm}: value", sym("optimum"), "R.result")
        s.same("result", f"{nm}: optimizer", s.env["O"], "R.optimizer")
        s.eq("result", f"{nm}: target", const("USDC"), "R.sfc.optimizationvar")
        kw = cv.solved[0] if len(cv.solved) == 1 else None
        if kw is not None and nm == "solver":
            ck.decide(True if kw.get("a") is const(1) else False, "problem", "parameters of the solver", f"solve is called with {sorted(kw)}")


def fixed(s, v):
    return Out(s.I, s.st, v, TRUE, TRUE)


class Steps:
    """numpy's linear algebra: every solve answers new logarithmic steps, the norms are given"""

    def __init__(self, s, norms):
        self.s, self.norms, self.n, self.rhs = s, list(norms), 0, []
        s.I.ext_hook = self.ext

    def ext(self, name, a, kw, st):
        I = self.s.I
        if name == "numpy.log" and a == [const(10)]:
            return const(1)             # the unit of the logarithms
        if name in ("numpy.log10", "math.log10") and a[0].op == "vec":
            return mk("vec", *[mk("lg", x) for x in a[0].args])
        if name in ("numpy.exp",) and a[0].op == "vec":
            out = []
            for x in a[0].args:
                ps = flat(x)
                lg = [p for p in ps if p.op == "lg"]
                st_ = [p for p in ps if p.op == "sym" and str(p.args[0]).startswith("step")]
                if len(lg) != 1 or len(lg) + len(st_) != len(ps):
                    return None
                r = lg[0].args[0]
                for p in st_:
                    r = arith("mul", r, arith("pow", sym("f" + p.args[0]), const(2)))
                out.append(r)
            return mk("vec", *out)
        if name == "numpy.linalg.solve" and len(a) == 2 and a[1].op == "vec":
            self.rhs.append(a[1])
            self.n += 1
            return mk("vec", *[sym(f"step{self.n}{i}") for i in range(len(a[1].args))])
        if name == "numpy.linalg.norm":
            return const(self.norms.pop(0)) if self.norms else None


def margp(ck):
    fac = [sym(f"fstep{i}{j}") for i in (1, 2, 3) for j in (0, 1)]

    def setup():
        s = scene(ck, fac)
        optimizer(s, [(c, curve(s, c, pair, s.env[f"g{i}"], s.env[f"q{i}"])) for c, pair, i, r in FIVE])
        return s
    start = "pstart={'WETH': w**2, 'LINK': l**2}"
    for nm, norms, par, n in (("converged at once", [0.0], start + ", maxiter=4", 0), ("converged in the second step", [1.0, 0.0], start + ", maxiter=3", 2), ("converged in the last step", [1.0, 0.0], start + ", maxiter=2", 2),
                              ("converged in the third step", [1.0, 1.0, 0.0], start + ", maxiter=4", 3),
                              ("second step, with flows by name", [1.0, 0.0], start + ", maxiter=3, tknd=True", 2), ("second step, verbose", [1.0, 0.0], start + ", maxiter=3, verbose=True, progress=True, tknd=True, J=True", 2),
                              ("at once, with flows by name", [0.0], start + ", maxiter=3, tknd=True", 0), ("second step, debug", [1.0, 0.0], start + ", maxiter=3, debug=True", 2)):
        for mode in ("", ", result=O.MO_MINIMAL"):
            s = setup()
            steps = Steps(s, norms)
            o = f"{nm}{' (minimal)' if mode else ''}"
            try:
                s.env["R"] = s.do(f"return O.margp_optimizer('USDC', params=dict({par}){mode})")
            except Dead:
                ck.bad("result", f"margp, {o}", "the call always fails")
                continue
            W = "w" + "".join(f"*fstep{i}1" for i in range(1, n + 1))
            L = "l" + "".join(f"*fstep{i}0" for i in range(1, n + 1))
            per, fl = moves([(c, p, i, r.replace("w", "W").replace("l", "L").replace("W", f"({W})").replace("L", f"({L})")) for c, p, i, r in FIVE])
            s.eq("result", f"margp, {o}: no error", const(False), "R.is_error")
            s.eq("result", f"margp, {o}: value", fl["USDC"], "R.result")
            s.eq("result", f"margp, {o}: target", const("USDC"), "R.targettkn")
            for i, (t, pr) in enumerate((("LINK", f"({L})**2"), ("WETH", f"({W})**2"))):
                s.eq("result", f"margp, {o}: token {i}", const(t), f"R.tokens_t[{i}]")
                s.eq("result", f"margp, {o}: price of {t}", pr, f"R.p_optimal_t[{i}]")
                s.eq("result", f"margp, {o}: flow of {t}", fl[t], f"R.dtokens_t[{i}]")
            if mode:
                continue
            for t, pr in (("LINK", f"({L})**2"), ("WETH", f"({W})**2")):
                s.eq("result", f"margp, {o}: price of {t} by name", pr, f"R.p_optimal['{t}']")
                s.eq("result", f"margp, {o}: price of {t} in the target", pr, f"R.price('{t}', 'USDC')")
            for t in fl:
                s.eq("result", f"margp, {o}: flow of {t} by name", fl[t], f"R.dtokens['{t}']")
            for i, (c, p, k, r) in enumerate(FIVE):
                s.eq("result", f"margp, {o}: dx of {c}", per[c][0], f"R.dxvalues[{i}]")
                s.eq("result", f"margp, {o}: dy of {c}", per[c][1], f"R.dyvalues[{i}]")
            s.same("result", f"margp, {o}: curves", s.env["CC"], "R.curves")
            s.same("result", f"margp, {o}: optimizer", s.env["O"], "R.optimizer")
            p0, f0 = moves(FIVE)
            for i, t in enumerate(("LINK", "WETH")):
                if steps.rhs:
                    s.f.expect("search", f"margp, {o}: the first step aims at no flow of {t}", fixed(s, steps.rhs[0].args[i]), s.sp(f"-({f0[t]})"))
    for nm, norms, par in (("one step", [1.0], ", maxiter=1"), ("two steps", [1.0, 1.0], ", maxiter=2")):
        s = setup()
        Steps(s, norms)
        try:
            s.env["R"] = s.do(f"return O.margp_optimizer('USDC', params=dict({start}{par}))")
        except Dead:
            ck.bad("result", f"margp, not converged in {nm}", "the call always fails")
            continue
        s.eq("result", f"margp, not converged in {nm}: an error", const(True), "R.is_error")
        for a in ("result", "p_optimal", "p_optimal_t", "dtokens", "dtokens_t"):
            s.eq("result", f"margp, not converged in {nm}: no {a}", const(None), f"R.{a}")
    s = setup()
    for i, t in enumerate(("LINK", "WETH")):
        s.eq("result", f"margp: tokens, {i}", const(t), f"O.margp_optimizer('USDC', result='debug', params=dict({start}))['tokens_t'][{i}]")
        s.eq("result", f"margp: starting price of {t}", "w**2" if t == "WETH" else "l**2", f"O.margp_optimizer('USDC', result='debug', params=dict({start}))['price_estimates_t'][{i}]")
    s.rejects("reject", "margp: starting prices that lack a token", "O.margp_optimizer('USDC', params=dict(pstart={'WETH': w**2}))", none_ok=False)
    s.rejects("reject", "margp: unknown result", f"O.margp_optimizer('USDC', result='foo', params=dict({start}))", none_ok=False)


def simple_results(ck):
    for order in (("ca", "cb", "cc"), ("cb", "cc", "ca")):
        simple_result(ck, order)
    s = three(ck)
    s.rejects("reject", "simple: unknown result", "O.simple_optimizer(result='foo')", none_ok=False)


def simple_result(ck, order):
    inv = "" if order[0] == "ca" else "first curve inverted, "
    one = {"ca": TRADES["ca"][:2], "cb": TRADES["cb"][1::-1], "cc": TRADES["cc"][:2]}
    one = {c: one[c] for c in order}
    X, Y = "+".join(f"({a})" for a, b in one.values()), "+".join(f"({b})" for a, b in one.values())
    for nm, call, zero, want, failed in (("target USDC", "O.simple_optimizer('USDC')", X, Y, False), ("target WETH", "O.simple_optimizer('WETH')", Y, X, False), ("best price", "O.simple_optimizer()", None, f"{X}+({Y})/P", False),
                                         ("best price, asked for", "O.simple_optimizer(result='globalmax')", None, f"{X}+({Y})/P", False), ("target WETH, asked for", "O.simple_optimizer('WETH', result='targettkn')", Y, X, False),
                                         ("best price, search fails", "O.simple_optimizer()", None, None, True)):
        nm = inv + nm
        s = three(ck, order)
        s.env["P"] = s.sp("(n+o)**2")
        s.env["FOUND"] = s.do("return O.SimpleResult(result=None, errormsg='no')" if failed else "return O.SimpleResult(result=P)")
        asked = []

        def found(I, fn, args, kw, st, node):
            at = I.apply(args[1], [s.env["P"]], {}, st, node)
            asked.append((fn.name, at, args[2:]))
            return s.env["FOUND"]
        s.I.cfg.overrides["OptimizerBase.goalseek"] = s.I.cfg.overrides["OptimizerBase.findminmax_nr"] = found
        try:
            s.env["R"] = s.do("return " + call)
        except Dead:
            ck.bad("result", f"simple, {nm}", "the call always fails")
            continue
        if len(asked) != 1:
            ck.undecided("result", f"simple, {nm}", "not one search")
            continue
        name, at, ends = asked[0]
        s.f.expect("search", f"simple, {nm}: what is searched", fixed(s, at), s.sp(zero if zero else f"{X}+({Y})/P"))
        if zero:
            ck.decide(name == "goalseek" or None, "search", f"simple, {nm}: a zero is searched", name)
            C = s.f.canon()
            for c, p in (("ca", "n**2"), ("cb", "(n+o+r)**2"), ("cc", "(n+o+r)**2")):
                # the price that clears the other token lies between the lowest and the highest price
                for k, cond in ((0, "lo <= p"), (1, "p <= hi")):
                    cond = s.f.spec(cond, p=s.sp(p), lo=ends[0], hi=ends[1])
                    ck.decide(imp3(C, TRUE, cond), "search", f"simple, {nm}: price of {c} {'above the lower' if k == 0 else 'below the upper'} end", f"not {brief(cond, 200)}")
        if failed:
            for a, w in (("is_error", True), ("error", "no"), ("result", None), ("p_optimal", None), ("status", "error")):
                s.eq("result", f"simple, {nm}: {a}", const(w), f"R.{a}")
            continue
        s.eq("result", f"simple, {nm}: value", want, "R.result")
        s.eq("result", f"simple, {nm}: price", "P", "R.p_optimal")
        s.eq("result", f"simple, {nm}: no error", const(False), "R.is_error")
        s.eq("result", f"simple, {nm}: status", const("converged"), "R.status")
        s.eq("result", f"simple, {nm}: number of curves", "3", "len(R.curves)")
        for i, (c, (dx, dy)) in enumerate(one.items()):
            s.eq("result", f"simple, {nm}: dx of {c}", dx, f"R.dxvalues[{i}]")
            s.eq("result", f"simple, {nm}: dy of {c}", dy, f"R.dyvalues[{i}]")
        for a, w in (("dxdy_sum[0]", X), ("dxdy_sum[1]", Y), ("dxdy_valx", f"{X}+({Y})/P"), ("dxdy_valy", f"({X})*P+{Y}")):
            s.eq("result", f"simple, {nm}: {a}", w, f"R.{a}")
        if "best" in nm:
            s.same("result", f"simple, {nm}: best price only", s.env["FOUND"], "O.simple_optimizer(result='pmax')")


def ranges(ck):
    """a curve goes to the price if it is in its range, else to the end of the range"""
    for nm in ("inside", "below", "above"):
        s = scene(ck, (N_, O_, R_, sym("z")))
        # lower end n+o, current n+o+z, upper end n+o+z+r
        Q, LO, UP = "(n+o+z)", "(n+o)", "(n+o+z+r)"
        c = s.I.construct(s.I.qual(f"{CPCQ}.ConstantProductCurve"), [], dict(k=s.sp("g1**2"), x=s.sp(f"g1/{Q}"), x_act=s.sp(f"g1/{Q}-g1/{UP}"), y_act=s.sp(f"g1*{Q}-g1*{LO}"), pair=const("WETH/USDC"), cid=const("ca"), fee=const(0)), s.st, None)
        optimizer(s, [("ca", c), ("cb", curve(s, "cb", "WETH/USDC", s.env["g2"], s.env["q2"]))])
        price, end = {"inside": ("(n+o+z/2)", "(n+o+z/2)"), "below": ("n", LO), "above": ("(n+o+z+r+u)", UP)}[nm]
        dx, dy = f"g1/{end}-g1/{Q}", f"g1*{end}-g1*{Q}"
        bx, by = f"g2/{price}-g2/q2", f"g2*{price}-g2*q2"
        s.env["P"] = s.sp(f"{price}**2")
        s.env["M"] = s.do("return " + MARGP)
        f = "O.margp_optimizer('USDC', result=O.MO_DTKNFROMPF)([P], islog10=False, asdct=True)[0]"
        s.eq("flow", f"range, price {nm}: base", f"{dx}+{bx}", f"{f}['WETH']")
        s.eq("flow", f"range, price {nm}: quote", f"{dy}+{by}", f"{f}['USDC']")
        s.eq("trade", f"range, price {nm}: dx", dx, "M.dxvalues[0]")
        s.eq("trade", f"range, price {nm}: dy", dy, "M.dyvalues[0]")
        s.eq("flow", f"range, price {nm}: base, simple", f"{dx}+{bx}", "O.simple_optimizer(result='dxdysumfunc')(P)[0]")
        s.eq("flow", f"range, price {nm}: quote, simple", f"{dy}+{by}", "O.simple_optimizer(result='dxdysumfunc')(P)[1]")
        s.eq("adjust", f"range, price {nm}: x left", f"g1/{end}-g1/{UP}", "M.curves_new.curves[0].x_act")
        s.eq("adjust", f"range, price {nm}: y left", f"g1*{end}-g1*{LO}", "M.curves_new.curves[0].y_act")
        s.eq("adjust", f"range, price {nm}: x", f"g1/{end}", "M.curves_new.curves[0].x")


if __name__ == "__main__":
    run(main)
