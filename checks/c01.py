from checks.trade import *

RULES = {
    "quote": "a trade request with execution off writes to no order and not to the order book",
    "query": "a reporting member of the simulator writes to no order, order book, trade log or setting",
    "view": "a reporting member of an order view changes neither the view nor the view linked to it",
    "preview": "a view trade with execution off changes neither the view nor the view linked to it",
}
WRITES = ("setattr", "setitem", "delitem", "delattr", "mutcall")
VIEW_OPS = ("selly", "buyx", "tradeto")


def describe(e):
    k = e.key if isinstance(e.key, str) else brief(e.key, 60)
    return f"{e.kind} {k} on {brief(e.base, 100)}"


def quote(ck, mode, d):
    for tag, lim in (("nolimit", {"limit_price": NONE, "limit_amt": NONE}),
                     ("limit_price", {"limit_price": sym("LP"), "limit_amt": NONE}),
                     ("limit_amt", {"limit_price": NONE, "limit_amt": sym("LA")})):
        name = f"{mode}/{d}/{tag}"
        args = {"execute": FALSE, "use_positions": sym("POS"), "threshold_orders": sym("THR"), "support_partial": sym("PARTIAL")}
        args.update(lim)
        facts = [NN] + [NOT(EQ(v, NONE)) for v in lim.values() if v is not NONE]
        r = TradeRun(mode, d, args, facts, ctor=SETUP)
        ck.absorb(r.I)
        if not r.calls:
            ck.undecided("quote", name, "matcher call not reached")
            continue
        for e in r.order_effects():
            ck.bad("quote", f"{name}:{e.fn}", describe(e), e.where)
        ck.ok("quote", name)


REPORT = ("state", "liquidity", "price_convention", "get_carbon_pair", "__repr__", "numpos", "carbon_pair", "slashpair",
          "default_basetoken", "default_quotetoken")


def query(ck, m):
    I = new_interp(ident_methods={"upper"})
    st = I.state()
    sim = I.construct(I.qual("CarbonSimulatorUI"), [], {"pair": sym("P0"), "raiseonerror": TRUE}, st, None)
    O, TR = sym("ORDERS"), sym("TRADES")
    I.settype(O, ("dict", ("int",), ("cls", I.qual("Order"))))
    I.settype(TR, ("dict", ("str",), None))
    st.heap[(sim, "f", "orders")] = O
    st.heap[(sim, "f", "trades")] = TR
    I.effects.clear()
    I.limits.clear()
    reached = True
    try:
        v = I.getattr(sim, m, st, None)
        if v.op in ("bound", "func"):
            I.apply(v, [], {}, st, None)
    except Dead:
        pass
    ck.absorb(I)
    probe = Probe(I, O)
    for e in I.effects:
        if e.kind not in WRITES or e.base is None:
            continue
        if e.base is sim or e.base in (O, TR) or probe(e.base):
            ck.bad("query", f"CarbonSimulatorUI.{m}:{e.kind}", describe(e), e.where)
    ck.ok("query", f"CarbonSimulatorUI.{m}")


def Probe(I, O):
    def f(b):
        if b.op == "obj":
            return False
        ty = I.cls_of(b)
        if ty is not None and I.p.is_subclass(ty, I.p.classes[I.qual("Order")]):
            return True
        return contains(b, O) and b.op in ("item", "elem", "attr")
    return f


def view_run(m, pos=(), kw=None, facts=(), linked=True):
    I = new_interp(ident_methods={"upper"})
    st = I.state()
    V = sym("VIEW")
    q = I.qual("CarbonOrderUI")
    I.settype(V, ("cls", q))
    L = mk("attr", V, "linked")
    I.settype(L, ("cls", q))
    for f in facts:
        st.push(f)
    st.guard = ()
    try:
        v = I.getattr(V, m, st, None)
        if v.op in ("bound", "func"):
            I.apply(v, list(pos), kw or {}, st, None)
    except Dead:
        pass
    return I, V, L


def stored(I, e, roots):
    """is the written place part of an object that existed before the call?"""
    b = e.base
    while b is not None and b.op in ("attr", "item"):
        if b in roots:
            return True
        b = b.args[0]
    return b in roots


# the reporting members of the order view's interface
REPORTS = """A Gamma Gamma_from_Q Q Q_from_Gamma as_cpc asym_over_0 bidask bn2int bn2intd curves_by_pair_bidask descr dxfromdy_f
dyfromdx_f dyfromp_f from_BSy from_Qxy from_SDK from_order from_prices goalseek int_over_0 kappa kappa_bar leverage_fctr lid
liquidity_approx p0 p0_raw p_eff_f p_marg p_marg_f price_convention price_convention_raw px py roundsd tknx tkny total_liquidity
widthpc widthr x x0 xasym xfromy_f xint y0 yasym yfromp_f yfromx_f yzABS z __repr__""".split()


def views(ck):
    cls = cls_named("CarbonOrderUI")
    for m, kind, node in sorted(callables(cls), key=lambda x: x[0]):
        if m not in REPORTS:
            continue
        def one(m=m, kind=kind, node=node):
            args = [sym("ARG_" + n) for n in required(kind, node)]
            I, V, L = view_run(m, args)
            ck.absorb(I)
            for e in I.effects:
                if e.kind in WRITES and e.base is not None and stored(I, e, {V} | set(args)):
                    ck.bad("view", f"CarbonOrderUI.{m}:{e.kind}", describe(e), e.where)
            ck.ok("view", f"CarbonOrderUI.{m}")
        guarded(ck, "view", f"CarbonOrderUI.{m}", one)
    for m in VIEW_OPS:
        def two(m=m):
            kw = {"execute": FALSE}
            I, V, L = view_run(m, [sym("AMT")], kw)
            ck.absorb(I)
            for e in I.effects:
                if e.kind in WRITES and e.base is not None and stored(I, e, {V}):
                    which = "linked view" if stored(I, e, {L}) else "view"
                    ck.bad("preview", f"CarbonOrderUI.{m}:{which}", describe(e), e.where)
            ck.ok("preview", f"CarbonOrderUI.{m}")
        guarded(ck, "preview", f"CarbonOrderUI.{m}", two)


def main():
    ck = Check("C01", "quotes and read-only queries change nothing", RULES, floor=12, assumptions=[
        "matchers do not modify the orders offered to them (decided by C10)"])
    for m in MODES:
        for d in DIRS:
            guarded(ck, "quote", f"{m}/{d}", lambda: quote(ck, m, d))
    for m in REPORT:
        guarded(ck, "query", m, lambda: query(ck, m))
    views(ck)
    return ck.finish()
