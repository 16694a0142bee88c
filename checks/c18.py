"""Constant-product curves: constructors, derived quantities, swap functions, pairs and containers against
their defining relations (abstract evaluation to rational normal forms)."""
from checks.c13 import *

RULES = {
    "construct": "every constructor yields the curve its arguments describe",
    "bounds": "the reserve and price bounds of a curve are those of its invariant and actual balances",
    "swap": "the swap functions stay on the curve and inside its bounds",
    "execute": "executing a trade moves along the curve and moves the actual balances by the same amounts",
    "inverter": "the inverted view of a curve is the same curve with the axes exchanged",
    "pair": "a pair has exactly one primary direction, and prices are inverted in the other one",
    "select": "container queries return exactly the curves and pairs asked for, with the container's token scale",
    "reject": "contradictory or ill-formed constructor arguments are rejected",
}
CPC = "carbon.tools.cpc.ConstantProductCurve"
CC = "carbon.tools.cpc.CPCContainer"
K, X, YY, XA, YA = sym("k"), sym("x"), sym("yy"), sym("xa"), sym("ya")
P, Q = sym("p"), sym("q")
CID, FEE, DESCR = sym("CID"), sym("FEE"), sym("DESCR")
PR = "AAA/BBB"


def div(a, b):
    return arith("div", a, b)


def constructors(ck):
    u, v = sym("u"), sym("v")
    cases = [
        ("from_kx", dict(k="k", x="x"), "k", "x"),
        ("from_ky", dict(k="k", y="yy"), "k", "k/yy"),
        ("from_xy", dict(x="x", y="yy"), "x*yy", "x"),
        ("from_pk", dict(p="u*u", k="v*v"), "v*v", "v/u"),
        ("from_px", dict(p="p", x="x"), "x*x*p", "x"),
        ("from_py", dict(p="p", y="yy"), "yy*yy/p", "yy/p"),
    ]
    env = dict(k=K, x=X, yy=YY, u=u, v=v, p=P)
    for m, args, wk, wx in cases:
        for acts in (False, True):
            f = ctx(ck, [K, X, YY, u, v, P, XA, YA])
            sp = lambda e: f.spec(e, **env)
            kw = {n: sp(e) for n, e in args.items()}
            if acts:
                kw.update(x_act=XA, y_act=YA)
            o, r = make(f, f"{CPC}:{m}", pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **kw)
            j = J(ck, f, o, m + (", actual balances given" if acts else ""), r)
            if not j.made("construct"):
                continue
            k, x = sp(wk), sp(wx)
            y = div(k, x)
            j.eq("construct", "k", k)
            j.eq("construct", "x", x)
            j.eq("construct", "y", y)
            j.eq("construct", "p", div(y, x))
            j.eq("construct", "x_act", XA if acts else x)
            j.eq("construct", "y_act", YA if acts else y)
            j.eq("construct", "pair", const(PR))
            j.eq("construct", "cid", CID)
            j.eq("construct", "fee", FEE)
            j.eq("construct", "descr", DESCR)
            j.eq("construct", "constr", const(m[5:]))
            j.eq("construct", "tknx", const("AAA"))
            j.eq("construct", "tkny", const("BBB"))
            j.eq("construct", "tknb", const("AAA"))
            j.eq("construct", "tknq", const("BBB"))
    # price range: p=q^2, p_max=(q+r)^2, p_min=(q-o)^2 as n^2
    n, o_, r_, g = sym("n"), sym("o"), sym("r"), sym("g")
    q = arith("add", n, o_)
    for nm, kw0, xmin, ymin in (
            ("range", dict(p_min="n*n", p_max="(n+o+r)**2"), "g/(n+o+r)", "g*n"),
            ("no range", {}, "g/(n+o)", "g*(n+o)"),
            ("only upper", dict(p_max="(n+o+r)**2"), "g/(n+o+r)", "g*(n+o)"),
            ("only lower", dict(p_min="n*n"), "g/(n+o)", "g*n")):
        f = ctx(ck, [n, o_, r_, g])
        env = dict(n=n, o=o_, r=r_, g=g)
        sp = lambda e: f.spec(e, **env)
        o, c = make(f, f"{CPC}:from_pkpp", p=sp("(n+o)**2"), k=sp("g*g"), pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **{a: sp(b) for a, b in kw0.items()})
        j = J(ck, f, o, "from_pkpp, " + nm, c)
        if j.made("construct"):
            for a, w in (("k", "g*g"), ("x", "g/(n+o)"), ("y", "g*(n+o)"), ("p", "(n+o)**2"), ("x_min", xmin), ("y_min", ymin),
                         ("x_act", f"g/(n+o)-{xmin}"), ("y_act", f"g*(n+o)-{ymin}")):
                j.eq("construct", a, sp(w))
            if nm == "range":
                j.eq("construct", "p_min", sp("n*n"))
                j.eq("construct", "p_max", sp("(n+o+r)**2"))
            j.eq("construct", "constr", const("pkpp"))
            for a, w in (("cid", CID), ("fee", FEE), ("descr", DESCR), ("pair", const(PR))):
                j.eq("construct", a, w)
        if nm != "range":
            continue
        o, c = make(f, f"{CPC}:from_univ3", Pmarg=sp("(n+o)**2"), uniL=g, uniPa=sp("n*n"), uniPb=sp("(n+o+r)**2"), pair=const(PR), cid=CID, fee=FEE, descr=DESCR)
        j = J(ck, f, o, "from_univ3", c)
        if j.made("construct"):
            for a, w in (("k", "g*g"), ("x", "g/(n+o)"), ("y", "g*(n+o)"), ("p", "(n+o)**2"), ("p_min", "n*n"), ("p_max", "(n+o+r)**2")):
                j.eq("construct", a, sp(w))
            for a, w in (("cid", CID), ("fee", FEE), ("descr", DESCR), ("pair", const(PR)), ("constr", const("uv3"))):
                j.eq("construct", a, w)
            j.eq("construct", "params[L]", g, got=item(f, o, attr(f, o, c, "params"), "L"))
        for nm2, a in (("price below the range", dict(Pmarg="n*n", uniPa="(n+o)**2", uniPb="(n+o+r)**2")),
                       ("price above the range", dict(Pmarg="(n+o+r)**2", uniPa="n*n", uniPb="(n+o)**2")),
                       ("range the wrong way round", dict(Pmarg="(n+o)**2", uniPb="n*n", uniPa="(n+o+r)**2"))):
            o, c = make(f, f"{CPC}:from_univ3", uniL=g, pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **{x: sp(y) for x, y in a.items()})
            o.value = c
            f.rejects("reject", "from_univ3: " + nm2, o, none_ok=False)
    # uniswap v2
    for nm, kw in (("x and y", dict(x_tknb=X, y_tknq=YY)), ("x and k", dict(x_tknb=X, k="xy")), ("y and k", dict(y_tknq=YY, k="xy"))):
        f = ctx(ck, [X, YY], extra=[NOT(EQ(t, NONE)) for t in (CID, FEE, DESCR)])
        xy = f.spec("x*y", x=X, y=YY)
        kw = {a: (xy if b == "xy" else b) for a, b in kw.items()}
        o, c = make(f, f"{CPC}:from_univ2", pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **kw)
        j = J(ck, f, o, "from_univ2, " + nm, c)
        if j.made("construct"):
            for a, w in (("k", xy), ("x", X), ("y", YY), ("x_act", X), ("y_act", YY), ("constr", const("uv2")), ("cid", CID), ("fee", FEE), ("descr", DESCR), ("pair", const(PR))):
                j.eq("construct", a, w)
    f = ctx(ck, [X, YY, K], extra=[NOT(EQ(t, NONE)) for t in (CID, FEE, DESCR)])
    for nm, kw in (("all of x, y, k", dict(x_tknb=X, y_tknq=YY, k=K)), ("only x", dict(x_tknb=X)), ("only y", dict(y_tknq=YY)), ("only k", dict(k=K))):
        o, c = make(f, f"{CPC}:from_univ2", pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **kw)
        o.value = c
        f.rejects("reject", "from_univ2: " + nm, o, none_ok=False)
    for miss in ("pair", "cid", "fee", "descr"):
        kw = dict(x_tknb=X, y_tknq=YY, pair=const(PR), cid=CID, fee=FEE, descr=DESCR)
        del kw[miss]
        o, c = make(f, f"{CPC}:from_univ2", **kw)
        o.value = c
        f.rejects("reject", "from_univ2: no " + miss, o, none_ok=False)
    carbon(ck)


def item(f, o, d, key):
    try:
        return o.I.freeze(o.I.getitem(d, const(key), o.st, None), o.st)
    except AttributeError:
        return o.I.freeze(o.I.subscript(d, const(key), o.st, None), o.st)


def carbon(ck):
    a, b, y, s = sym("a"), sym("b"), sym("yc"), sym("s")
    # pa=(a+b)^2, pb=b^2; A=a, B=b; yint=y+s
    def sp(f, e):
        return f.spec(e, a=a, b=b, y=y, s=s)
    forms = []
    for tkny, x in (("BBB", "AAA"), ("AAA", "BBB")):
        forms.append((f"A,B, {tkny}", tkny, x, dict(A="a", B="b")))
        forms.append((f"prices in dy/dx, {tkny}", tkny, x, dict(pa="(a+b)**2", pb="b*b")))
    forms.append(("prices in pair quote, BBB", "BBB", "AAA", dict(pa="(a+b)**2", pb="b*b", isdydx=False)))
    forms.append(("prices in pair quote, AAA", "AAA", "BBB", dict(pa="1/(a+b)**2", pb="1/b**2", isdydx=False)))
    for nm, tkny, tknx, kw in forms:
        f = ctx(ck, [a, b, y, s])
        kw = {n: (const(e) if isinstance(e, bool) else sp(f, e)) for n, e in kw.items()}
        o, c = make(f, f"{CPC}:from_carbon", yint=sp(f, "y+s"), y=y, pair=const(PR), tkny=const(tkny), fee=FEE, cid=CID, descr=DESCR, **kw)
        j = J(ck, f, o, "from_carbon, " + nm, c)
        if not j.made("construct"):
            continue
        for at, w in (("k", "((y+s)/a)**2"), ("y", "y+(y+s)*b/a"), ("x", "((y+s)/a)**2/(y+(y+s)*b/a)"), ("x_act", "0*y"), ("y_act", "y"),
                      ("y_min", "(y+s)*b/a"), ("p_min", "b*b"), ("p", "((a*y+b*(y+s))/(y+s))**2")):
            j.eq("construct", at, sp(f, w))
        for at, w in (("pair", const(f"{tknx}/{tkny}")), ("tknx", const(tknx)), ("tkny", const(tkny)), ("cid", CID), ("fee", FEE), ("descr", DESCR), ("constr", const("carb"))):
            j.eq("construct", at, w)
        pr = attr(f, o, c, "params")
        for n, w in (("y", "y"), ("yint", "y+s"), ("A", "a"), ("B", "b")):
            j.eq("construct", f"params[{n}]", sp(f, w), got=item(f, o, pr, n))
    # a full order starts at its upper price
    f = ctx(ck, [a, b, y])
    o, c = make(f, f"{CPC}:from_carbon", yint=y, y=y, A=a, B=b, pair=const(PR), tkny=const("BBB"))
    j = J(ck, f, o, "from_carbon, full", c)
    if j.made("construct"):
        j.eq("construct", "p", f.spec("(a+b)**2", a=a, b=b))
    f = ctx(ck, [a, b, y, s])
    base = dict(yint="y+s", y="y", pair=PR, tkny="BBB", pa="(a+b)**2", pb="b*b")
    bad = [("no yint", dict(yint=None)), ("no y", dict(y=None)), ("no pair", dict(pair=None)), ("no tkny", dict(tkny=None)), ("y above yint", dict(yint="y", y="y+s")),
           ("negative y", dict(y="-y")), ("A,B and prices", dict(A="a", B="b")), ("only pa", dict(pb=None)), ("only A", dict(pa=None, pb=None, A="a")),
           ("A, B in pair quote", dict(pa=None, pb=None, A="a", B="b", isdydx=False)), ("negative A", dict(pa=None, pb=None, A="-a", B="b")),
           ("only pb", dict(pa=None)), ("only B", dict(pa=None, pb=None, B="b")), ("A, B and pa", dict(pb=None, A="a", B="b")), ("A, B and pb", dict(pa=None, A="a", B="b")),
           ("prices and A", dict(A="a")), ("prices and B", dict(B="b")), ("foreign token", dict(tkny="CCC")), ("prices the wrong way round", dict(pa="b*b", pb="(a+b)**2"))]
    for nm, kw in bad:
        d = {**base, **kw}
        d = {n: v if v is None or isinstance(v, bool) else const(v) if n in ("pair", "tkny") else sp(f, v) for n, v in d.items()}
        d = {n: NONE if v is None else const(v) if isinstance(v, bool) else v for n, v in d.items()}
        o, c = make(f, f"{CPC}:from_carbon", **d)
        o.value = c
        f.rejects("reject", "from_carbon: " + nm, o, none_ok=False)


def curve(f, g, n, o, r, full=False, pair=PR):
    """curve with invariant g^2 at price (n+o)^2 in the price range n^2 .. (n+o+r)^2"""
    sp = lambda e: f.spec(e, g=g, n=n, o=o, r=r)
    kw = {} if full else dict(x_act=sp("g/(n+o)-g/(n+o+r)"), y_act=sp("g*o"))
    return make(f, CPC, k=sp("g*g"), x=sp("g/(n+o)"), pair=const(pair), cid=CID, fee=FEE, descr=DESCR, **kw)


def extras(ck):
    """parameters given by the caller are the curve's, together with those the constructor adds (which the caller cannot override)"""
    from checks.c20 import Sc
    calls = {"from_kx": "k=k, x=x", "from_ky": "k=k, y=x", "from_xy": "x=k, y=x", "from_pk": "p=k, k=x", "from_px": "p=k, x=x", "from_py": "p=k, y=x",
             "from_pkpp": "p=k, k=x", "from_univ2": "x_tknb=k, y_tknq=x", "from_univ3": "Pmarg=1, uniL=x, uniPa=0.25, uniPb=4", "from_carbon": "yint=x, y=x, pa=4, pb=1, tkny='BBB'"}
    own = {"from_univ3": (("L", "x"),), "from_carbon": (("y", "x"), ("yint", "x"))}
    for m, a in calls.items():
        for nm, ps in (("none", ""), ("the caller's", ", params={'exchange': e, 'w': h}"), ("the caller's, named like the constructor's own", ", params={'exchange': e, 'L': h, 'y': h, 'yint': h}")):
            s = Sc(ck, [K, X, sym("h"), sym("e")])
            s.env = dict(k=K, x=X, h=sym("h"), e=sym("e"), C=mk("cls", s.I.qual(CPC)))
            c = f"C.{m}({a}, pair='AAA/BBB', cid='c', fee=0, descr='d'{ps})"
            if ps:
                s.eq("construct", f"{m}, parameters {nm}: exchange", "e", f"{c}.params['exchange']")
            if "'w'" in ps:
                s.eq("construct", f"{m}, parameters {nm}: w", "h", f"{c}.params['w']")
            for n, w in own.get(m, ()):
                s.eq("construct", f"{m}, parameters {nm}: {n}", w, f"{c}.params['{n}']")
            if "'L'" in ps and m not in own:
                s.eq("construct", f"{m}, parameters {nm}: L", "h", f"{c}.params['L']")
    s = Sc(ck, [K, X, sym("h"), sym("e")])
    s.env = dict(k=K, x=X, h=sym("h"), e=sym("e"), C=mk("cls", s.I.qual(CPC)))
    c = "C.from_kx(k=k, x=x, pair='AAA/BBB', cid='c', fee=0, descr='d', params={'exchange': e, 'pool': {'id': h}})"
    for nm, x in (("of a new curve", c), ("after dx", c + ".execute(dx=h)"), ("after dy", c + ".execute(dy=h)"), ("after two trades", c + ".execute(dy=h).execute(dx=e)")):
        s.eq("execute", f"parameters {nm}: exchange", "e", f"{x}.P('exchange')")
        s.eq("execute", f"parameters {nm}: pool:id", "h", f"{x}.P('pool:id')")
        s.eq("execute", f"parameters {nm}: none", "None", f"{x}.P('nosuch')")
        s.eq("execute", f"parameters {nm}: default", "e", f"{x}.P('nosuch', e)")
        s.eq("execute", f"parameters {nm}: fee", "0", f"{x}.fee")


def handling(ck):
    """what is carried along with a curve and a container: names, units, wrapping, records, adding"""
    from checks.c20 import Sc
    s = Sc(ck, [K, X, sym("h"), sym("e")])
    s.env = dict(k=K, x=X, h=sym("h"), e=sym("e"), C=mk("cls", s.I.qual(CPC)), CC=mk("cls", s.I.qual(CC)), I=mk("cls", s.I.qual("carbon.tools.cpc.CPCInverter")), P=mk("cls", s.I.qual("carbon.tools.cpc.Pair")))
    c = "C.from_kx(k=k*k, x=x, pair='ETH-6Cc2/USDC-eB48', cid='c')"
    i = f"I({c})"
    for o, b, q in ((c, "ETH", "USDC"), (i, "USDC", "ETH")):
        nm = "curve" if o is c else "inverted curve"
        rule = "swap" if o is c else "inverter"
        for a, w in (("tknbp", b), ("tknqp", q), ("tknxp", b), ("tknyp", q), ("pairp", f"{b}/{q}"), ("p_convention()", f"{q} per {b}")):
            s.eq(rule, f"{nm}: {a}", repr(w), f"{o}.{a}")
        for m in ("xyfromp_f", "dxdyfromp_f"):
            for j, w in ((0, f"{o}.{m}(h)[0]"), (1, f"{o}.{m}(h)[1]"), (2, "h"), (3, repr(b)), (4, repr(q)), (5, f"'{b}/{q}'")):
                s.eq(rule, f"{nm}: {m} with units, part {j}", w, f"{o}.{m}(h, withunits=True)[{j}]")
            s.eq(rule, f"{nm}: {m} without units has three parts", "3", f"len({o}.{m}(h))")
    s.eq("execute", "trade recorded: dx", "h", f"{c}.execute(dx=h).P('traded:dx')")
    s.eq("execute", "trade recorded: dy", "h", f"{c}.execute(dy=h).P('traded:dy')")
    a, b = "C.from_kx(k=k, x=x, pair='AAA/BBB', cid='a')", "C.from_kx(k=k, x=x, pair='BBB/AAA', cid='b')"
    for nm, seq in (("list", f"[{a}, {b}]"), ("generator", f"(c for c in ({a}, {b}))"), ("container", f"CC([{a}, {b}])")):
        for g in (False, True):
            w = f"list(I.wrap({seq}, asgenerator=True))" if g else f"I.wrap({seq})"
            u = f"list(I.unwrap({w}, asgenerator=True))" if g else f"I.unwrap({w})"
            n = f"{nm}{' as generator' if g else ''}"
            s.eq("inverter", f"wrap {n}: length", "2", f"len({w})")
            for j, cid in ((0, "a"), (1, "b")):
                s.eq("inverter", f"wrap {n}: {cid} in its primary direction", "'AAA/BBB'", f"{w}[{j}].pair")
                s.eq("inverter", f"wrap {n}: {cid} itself", f"'{cid}'", f"{w}[{j}].cid")
                s.eq("inverter", f"unwrap {n}: {cid}", "'AAA/BBB'" if j == 0 else "'BBB/AAA'", f"{u}[{j}].pair")
                s.eq("inverter", f"unwrap {n}: {cid} itself", f"'{cid}'", f"{u}[{j}].cid")
    # adding answers the container
    s.eq("select", "add answers the container", "2", f"len(CC([{a}]).add({b}))")
    s.eq("select", "add of a list answers the container", "3", f"len(CC([{a}]).add([{b}, C.from_kx(k=k, x=x, pair='BBB/CCC', cid='c')]))")
    s.eq("select", "+= keeps the container", "2", f"CC([{a}]).__iadd__({b}).__len__()")
    s.eq("select", "membership of an added curve", "True", f"(lambda c: c in CC([{a}]).add(c))({b})")
    s.eq("select", "ids given out", "(0, 1)", "CC([C.from_kx(k=k, x=x, pair='AAA/BBB'), C.from_kx(k=k, x=x, pair='AAA/CCC')]).cids()")
    s.eq("select", "id given out on adding", "1", "CC([C.from_kx(k=k, x=x, pair='AAA/BBB')]).add(C.from_kx(k=k, x=x, pair='AAA/CCC')).cids()[1]")
    s.eq("select", "id kept on adding", "'a'", f"CC([{a}]).add({b}).cids()[0]")
    for m, w in (("tknxl", "['AAA', 'BBB']"), ("tknyl", "['BBB', 'AAA']")):
        for j in (0, 1):
            s.eq("select", f"{m} [{j}]", f"{w}[{j}]", f"CC([{a}, {b}]).{m}()[{j}]")
    s.eq("select", "tokens_s", "'AAA,BBB'", f"CC([{a}, {b}]).tokens_s()")
    for j, w in enumerate(("'BBB'", "'AAA'", "'BBB'", "'AAA'", "'BBB/AAA'", "'AAA/BBB'", "False", "{c}.p", "1/{c}.p", "x", "h", "k/x", "e", "'b'")):
        q = "C(k=k, x=x, x_act=h, y_act=e, pair='BBB/AAA', cid='b')"
        s.eq("select", f"record of a curve: {CC_COLS[j]}", w.replace("{c}", q), f"CC([{q}])._record({q})[{j}]")
        s.eq("select", f"record of a curve: name of column {CC_COLS[j]}", repr(CC_COLS[j]), f"CC([{q}])._record()[{j}]")
        s.eq("select", f"list of the pairs: {CC_COLS[j]}", w.replace("{c}", q), f"CC([{q}]).pairs_analysis(target='list')[0][{j}]")
    two = "CC([C.from_kx(k=4, x=1, pair='AAA/BBB', cid='a'), C.from_kx(k=9, x=3, pair='AAA/BBB', cid='b')])"
    for j, n, vals in ((0, "x", (2, 1, 3)), (1, "y", (3.5, 3, 4))):
        for a_, w in zip(("mean", "minv", "maxv"), vals):
            s.eq("select", f"statistics: {a_} of {n}", repr(w), f"{two}.xystats()[{j}].{a_}")


CC_COLS = ("tknx", "tkny", "tknb", "tknq", "pair", "primary", "isprimary", "p", "pp", "x", "xa", "y", "ya", "cid")


def bounds(ck):
    g, n, o_, r_, s_, t_ = [sym(t) for t in "gnorst"]
    INV = "carbon.tools.cpc.CPCInverter"
    pos = [g, n, o_, r_, s_, t_]
    for full in (False, True):
        f = ctx(ck, pos)
        sp = lambda e: f.spec(e, g=g, n=n, o=o_, r=r_, s=s_, t=t_)
        out, c = curve(f, g, n, o_, r_, full)
        j = J(ck, f, out, "whole-range curve" if full else "curve", c)
        if not j.made("bounds"):
            continue
        none = "none"
        w = dict(x="g/(n+o)", y="g*(n+o)", p="(n+o)**2", kbar="g", k="g*g",
                 x_min="0*g" if full else "g/(n+o+r)", y_min="0*g" if full else "g*n",
                 x_max=none if full else "g/n", y_max=none if full else "g*(n+o+r)",
                 p_max=none if full else "(n+o+r)**2", p_min=none if full else "n*n",
                 dx_min="-g/(n+o)" if full else "g/(n+o+r)-g/(n+o)", dy_min="-g*(n+o)" if full else "-g*o",
                 dx_max=none if full else "g/n-g/(n+o)", dy_max=none if full else "g*r")
        for a, e in w.items():
            j.eq("bounds", a, NONE if e == none else sp(e))
        j.eq("bounds", "at_xmin", FALSE) if full else None
        xa, ya = ("g/(n+o)", "g*(n+o)") if full else ("(g/(n+o)-g/(n+o+r))", "g*o")
        for tkn, e in ((None, f"(n+o)**2*{xa}+{ya}"), ("BBB", f"(n+o)**2*{xa}+{ya}"), ("AAA", f"{xa}+{ya}/(n+o)**2")):
            a = (const(tkn),) if tkn else ()
            j.eq("bounds", f"tvl in {tkn or 'the default token'}", sp(e), got=attr(f, out, c, "tvl", *a))
        M = sym("MULT")
        f.positive.append(M)
        v = attr2(f, out, c, "tvl", const("AAA"), mult=M)
        j.eq("bounds", "tvl times a multiplier", arith("mul", M, sp(f"{xa}+{ya}/(n+o)**2")), got=v)
        # inverted view
        inv, iv = None, None
        inv = out.I.construct(out.I.qual("CPCInverter"), [c], {}, out.st, None)
        sw = dict(x="y", y="x", x_min="y_min", y_min="x_min", x_max="y_max", y_max="x_max")
        ji = J(ck, f, out, ("whole-range " if full else "") + "inverted curve", inv)
        for a in ("x", "y", "x_min", "y_min", "x_max", "y_max"):
            e = w[sw[a]]
            ji.eq("inverter", a, NONE if e == none else sp(e))
        ji.eq("inverter", "x_act", sp(ya))
        ji.eq("inverter", "y_act", sp(xa))
        ji.eq("inverter", "k", sp("g*g"))
        ji.eq("inverter", "p", sp("1/(n+o)**2"))
        ji.eq("inverter", "cid", CID)
        for a, e in (("p_min", none if full else "1/(n+o+r)**2"), ("p_max", none if full else "1/n**2")):
            try:
                ji.eq("inverter", a, NONE if e == none else sp(e))
            except Exception:
                raise
        for a, e in (("tknx", "BBB"), ("tkny", "AAA"), ("tknb", "BBB"), ("tknq", "AAA"), ("pair", "BBB/AAA")):
            ji.eq("inverter", a, const(e))
        swaps(ck, f, out, c, inv, sp, full)


def halves(ck):
    """curves bounded on one side only"""
    g, n, o_, r_ = [sym(t) for t in "gnor"]
    for nm, kw, w in (
            ("curve without upper price bound", dict(x_act="g/(n+o)", y_act="g*o"),
             dict(x_min="0*g", y_max=None, p_max=None, x_max="g/n", y_min="g*n", p_min="n*n", dx_min="-g/(n+o)", dy_min="-g*o", dx_max="g/n-g/(n+o)", dy_max=None)),
            ("curve without lower price bound", dict(x_act="g/(n+o)-g/(n+o+r)", y_act="g*(n+o)"),
             dict(x_min="g/(n+o+r)", y_max="g*(n+o+r)", p_max="(n+o+r)**2", x_max=None, y_min="0*g", p_min=None, dx_min="g/(n+o+r)-g/(n+o)", dy_min="-g*(n+o)", dx_max=None, dy_max="g*r"))):
        f = ctx(ck, [g, n, o_, r_])
        sp = lambda e: NONE if e is None else f.spec(e, g=g, n=n, o=o_, r=r_)
        out, c = make(f, CPC, k=sp("g*g"), x=sp("g/(n+o)"), pair=const(PR), cid=CID, fee=FEE, descr=DESCR, **{a: sp(e) for a, e in kw.items()})
        j = J(ck, f, out, nm, c)
        if not j.made("bounds"):
            continue
        for a, e in w.items():
            j.eq("bounds", a, sp(e))
        inv = out.I.construct(out.I.qual("CPCInverter"), [c], {}, out.st, None)
        ji = J(ck, f, out, nm + ", inverted", inv)
        for a, b in (("x_min", "y_min"), ("x_max", "y_max"), ("y_min", "x_min"), ("y_max", "x_max")):
            ji.eq("inverter", a, sp(w[b]))
        for a, b in (("p_min", "p_max"), ("p_max", "p_min")):
            ji.eq("inverter", a, NONE if w[b] is None else sp(f"1/({w[b]})"))


def attr2(f, o, obj, name, *args, **kw):
    v = o.I.getattr(obj, name, o.st, None)
    return o.I.freeze(o.I.apply(v, list(args), kw, o.st, None), o.st)


def swaps(ck, f, out, c, inv, sp, full):
    st0 = out.st
    pre = "whole-range curve" if full else "curve"

    def call(obj, m, *args, **kw):
        out.st = st0.copy()
        return attr2(f, out, obj, m, *args, **kw)

    def judge(rule, name, want, obj, m, *args, **kw):
        try:
            got = call(obj, m, *args, **kw)
        except Dead:
            return ck.bad(rule, name, "the call always fails")
        J(ck, f, out, pre).eq(rule, name, want, got=got)
    ig = dict(ignorebounds=TRUE)
    # inside the bounds: a price between the current one and the upper one: n+o < n+o+t < n+o+r needs r = t+s
    for m, arg, want in (("yfromx_f", "t", "g*g/t"), ("xfromy_f", "t", "g*g/t"), ("dyfromdx_f", "t", "g*g/(g/(n+o)+t)-g*(n+o)"), ("dxfromdy_f", "t", "g*g/(g*(n+o)+t)-g/(n+o)")):
        judge("swap", f"{m} without bounds", sp(want), c, m, sp(arg), **ig)
        im = {"yfromx_f": "xfromy_f", "xfromy_f": "yfromx_f", "dyfromdx_f": "dxfromdy_f", "dxfromdy_f": "dyfromdx_f"}[m]
        judge("inverter", f"{im} without bounds", sp(want), inv, im, sp(arg), **ig)
    if full:
        cases = [("t", "g*g/t", None)]
        judge("swap", "yfromx_f", sp("g*g/t"), c, "yfromx_f", sp("t"))
        judge("swap", "xfromy_f", sp("g*g/t"), c, "xfromy_f", sp("t"))
    else:
        # x between x_min and x_max by its price (n+o+r)^2 .. n^2 ; t is outside
        for nm, x, y in (("at the upper price", "g/(n+o+r)", "g*(n+o+r)"), ("at the current price", "g/(n+o)", "g*(n+o)"), ("at the lower price", "g/n", "g*n"),
                         ("between current and upper price", "g/(n+o+r/2)", "g*(n+o+r/2)"), ("between lower and current price", "g/(n+o/2)", "g*(n+o/2)"),
                         ("above the upper price", "g/(n+o+r+t)", None), ("below the lower price", "g*(1+t)/n", None)):
            yy = y or {"above the upper price": "g*(n+o+r+t)", "below the lower price": "g*n/(1+t)"}[nm]
            ok = y is not None
            judge("swap", f"yfromx_f {nm}", sp(y) if ok else NONE, c, "yfromx_f", sp(x))
            judge("swap", f"xfromy_f {nm}", sp(x) if ok else NONE, c, "xfromy_f", sp(yy))
            judge("swap", f"dyfromdx_f {nm}", sp(f"{y}-g*(n+o)") if ok else NONE, c, "dyfromdx_f", sp(f"{x}-g/(n+o)"))
            judge("swap", f"dxfromdy_f {nm}", sp(f"{x}-g/(n+o)") if ok else NONE, c, "dxfromdy_f", sp(f"{yy}-g*(n+o)"))
            judge("inverter", f"xfromy_f {nm}", sp(y) if ok else NONE, inv, "xfromy_f", sp(x))
            judge("inverter", f"dxfromdy_f {nm}", sp(f"{y}-g*(n+o)") if ok else NONE, inv, "dxfromdy_f", sp(f"{x}-g/(n+o)"))
            judge("inverter", f"dyfromdx_f {nm}", sp(f"{x}-g/(n+o)") if ok else NONE, inv, "dyfromdx_f", sp(f"{yy}-g*(n+o)"))
    # the point of a price
    pts = [("current", "(n+o)", "g/(n+o)", "g*(n+o)"), ("above current", "(n+o+r/2)", "g/(n+o+r/2)", "g*(n+o+r/2)"), ("below current", "(n+o/2)", "g/(n+o/2)", "g*(n+o/2)")]
    if not full:
        pts += [("above the range", "(n+o+r+t)", "g/(n+o+r)", "g*(n+o+r)"), ("below the range", "(n/(1+t))", "g/n", "g*n")]
    for nm, q, x, y in pts:
        for m, ex, ey in (("xyfromp_f", x, y), ("dxdyfromp_f", f"{x}-g/(n+o)", f"{y}-g*(n+o)")):
            p = sp(f"{q}**2")
            judge("swap", f"{m} {nm}", mk("tuple", sp(ex), sp(ey), p), c, m, p)
            judge("inverter", f"{m} {nm}", mk("tuple", sp(ey), sp(ex), sp(f"1/{q}**2")), inv, m, sp(f"1/{q}**2"))
            free = (f"g/{q}", f"g*{q}") if m[0] == "x" else (f"g/{q}-g/(n+o)", f"g*{q}-g*(n+o)")
            judge("swap", f"{m} {nm} without bounds", mk("tuple", sp(free[0]), sp(free[1]), p), c, m, p, **ig)
            judge("inverter", f"{m} {nm} without bounds", mk("tuple", sp(free[1]), sp(free[0]), sp(f"1/{q}**2")), inv, m, sp(f"1/{q}**2"), **ig)
    judge("swap", "xyfromp_f, no price", mk("tuple", sp("g/(n+o)"), sp("g*(n+o)"), sp("(n+o)**2")), c, "xyfromp_f")
    judge("inverter", "xyfromp_f, no price", mk("tuple", sp("g*(n+o)"), sp("g/(n+o)"), sp("1/(n+o)**2")), inv, "xyfromp_f")
    judge("swap", "dxdyfromp_f, no price", mk("tuple", sp("0*g"), sp("0*g"), sp("(n+o)**2")), c, "dxdyfromp_f")
    # executing trades
    xa, ya = ("g/(n+o)", "g*(n+o)") if full else ("g/(n+o)-g/(n+o+r)", "g*o")
    for nm, kw, nx in (("dx", dict(dx="t"), "(g/(n+o)+t)"), ("dy", dict(dy="t"), "(g*g/(g*(n+o)+t))"), ("nothing", {}, "(g/(n+o))"),
                       ("dx, emptying", dict(dx=f"-({xa})"), None if full else "(g/(n+o+r))"), ("dy, emptying", dict(dy=f"-({ya})"), None if full else "(g/n)"),
                       ("dx, half of it", dict(dx=f"-({xa})/2"), f"(g/(n+o)-({xa})/2)"), ("dy, half of it", dict(dy=f"-({ya})/2"), f"(g*g/(g*(n+o)-({ya})/2))")):
        if nx is None:
            continue
        for view in (False, True):
            rule = "inverter" if view else "execute"
            args = {({"dx": "dy", "dy": "dx"}[a] if view else a): sp(e) for a, e in kw.items()}
            name = f"execute {nm}"
            out.st = st0.copy()
            try:
                new = out.I.apply(out.I.getattr(inv if view else c, "execute", out.st, None), [], args, out.st, None)
            except Dead:
                ck.bad(rule, f"{pre}: {name}", "the call always fails")
                continue
            new0 = new
            o2 = Out(out.I, out.st, new, AND(*out.st.guard) if out.st.guard else TRUE, out.facts)
            j = J(ck, f, o2, f"{pre}: {name}", new)
            if not j.made(rule):
                continue
            w = dict(k="g*g", x=nx, y=f"g*g/{nx}", x_act=f"{xa}+{nx}-g/(n+o)", y_act=f"{ya}+g*g/{nx}-g*(n+o)")
            if view:
                w = dict(k=w["k"], x=w["y"], y=w["x"], x_act=w["y_act"], y_act=w["x_act"])
            for a, e in w.items():
                j.eq(rule, a, sp(e))
            j.eq(rule, "pair", const("BBB/AAA" if view else "AAA/BBB"))
            if not view:
                j.eq(rule, "fee", FEE)
                j.eq(rule, "x_min", sp("0*g") if full else sp("g/(n+o+r)"))
                j.eq(rule, "y_min", sp("0*g") if full else sp("g*n"))
    for nm, kw in (("more x than there is", dict(dx=f"-({xa})-t")), ("more y than there is", dict(dy=f"-({ya})-t")), ("both dx and dy", dict(dx="t", dy="s"))):
        for view in (False, True):
            args = {({"dx": "dy", "dy": "dx"}[a] if view else a): sp(e) for a, e in kw.items()}
            out.st = st0.copy()
            out.I.effects = []
            dead, v = False, NONE
            try:
                v = out.I.apply(out.I.getattr(inv if view else c, "execute", out.st, None), [], args, out.st, None)
            except Dead:
                dead = True
            o2 = Out(out.I, out.st, v, AND(*out.st.guard) if out.st.guard else TRUE, out.facts, dead)
            f.rejects("execute", f"{pre}{' inverted' if view else ''}: {nm}", o2, none_ok=False)
    out.st = st0


NUM = ("USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC")
PAIRCLS = ("carbon.tools.cpc.Pair", "carbon.tools.simplepair.SimplePair")


def pairs(ck):
    """pairs quoted in the token that comes first in the numeraire list, alphabetically otherwise"""
    cases = [("AAA/BBB", True), ("BBB/AAA", False), ("AAA/USDC", True), ("USDC/AAA", False), ("ETH/USDC", True), ("USDC/ETH", False), ("USDT/USDC", True), ("USDC/USDT", False),
             ("WBTC/ETH", True), ("ETH-6Cc2/USDC-eB48", True), ("USDC-eB48/ETH-6Cc2", False), ("BTC/WBTC", True), ("AAA/BTC", True), ("ETH(1)/DAI", True), ("USDC-2/USDC-1", False), ("USDC-1/USDC-2", True)]
    p = sym("p")
    for q in PAIRCLS:
        nm = q.rsplit(".", 1)[-1]
        for s, prim in cases:
            f = ctx(ck, [p])
            b, t = s.split("/")
            rev = f"{t}/{b}"
            for how in ("string", "tuple", "pair", "from_tokens"):
                if how == "from_tokens":
                    o, c = make(f, q + ":from_tokens", tknb=const(b), tknq=const(t))
                elif how == "string":
                    o, c = make(f, q, pair=const(s))
                elif how == "tuple":
                    o, c = make(f, q, pair=mk("tuple", const(b), const(t)))
                else:
                    o, c = make(f, q, pair=const(s))
                    c = o.I.construct(o.I.qual(q.rsplit(".", 1)[-1] if nm == "SimplePair" else q), [c], {}, o.st, None)
                j = J(ck, f, o, f"{nm} {s} from {how}", c)
                if not j.made("pair"):
                    continue
                j.eq("pair", "tknb", const(b))
                j.eq("pair", "tknq", const(t))
                if how != "string":
                    continue
                for a, w in (("tknx", b), ("tkny", t), ("pair", s), ("pairr", rev), ("primary", s if prim else rev), ("secondary", rev if prim else s)):
                    j.eq("pair", a, const(w))
                j.eq("pair", "pairt", mk("tuple", const(b), const(t)))
                j.eq("pair", "pairrt", mk("tuple", const(t), const(b)))
                j.eq("pair", "isprimary", const(prim))
                j.eq("pair", "pp", p if prim else div(const(1), p), got=attr(f, o, c, "pp", p))


def lst(f, o, v):
    """elements of a container value, or None"""
    v = o.I.freeze(v, o.st)
    if v.op in ("tuple",):
        return list(v.args)
    ps = o.I.pieces(v, o.st)
    if ps is None or any(g is not TRUE or ls for g, x, ls in ps):
        return None
    return [x for g, x, ls in ps]


def container(ck):
    f = ctx(ck, [sym(f"{a}{i}") for a in "xk" for i in range(5)])
    I = f.I
    st = f.state()
    ps = ["AAA/BBB", "BBB/AAA", "AAA/CCC", "BBB/AAA", "CCC/DDD"]
    cs = []
    for i, p in enumerate(ps):
        c = I.construct(I.qual(CPC), [], dict(k=sym(f"k{i}"), x=sym(f"x{i}"), pair=const(p), cid=const(f"c{i}")), st, None)
        cs.append(c)
    ts = sym("TSCALE")
    I.settype(ts, ("cls", I.qual("TokenScale")))
    f.facts.append(NOT(EQ(ts, NONE)))
    lo = I.new_obj("list")
    st.heap[(lo, "c")] = mk("list", *[mk("seg", c, TRUE, mk("loops")) for c in cs])
    cc = I.construct(I.qual(CC), [lo], dict(tokenscale=ts), st, None)
    st1 = st
    inst = {c.key: i for i, c in enumerate(cs)}

    def run1(m, *args, **kw):
        s = st1.copy()
        s.guard = ()
        for x in f.facts:
            s.push(x)
        s.guard = ()
        I.effects = []
        I.limits.clear()
        dead, v = False, NONE
        try:
            v = I.getattr(cc, m, s, None)
            if v.op in ("bound", "func"):
                v = I.apply(v, list(args), kw, s, None)
        except Dead:
            dead = True
        ck.absorb(I)
        return Out(I, s, v, AND(*s.guard) if s.guard else TRUE, AND(*f.facts), dead)

    def which(name, want, m, *args, **kw):
        """curves selected, in any order"""
        for how, extra in (("tuple", dict(ascc=FALSE)), ("container", {}), ("generator", dict(asgenerator=TRUE))):
            o = run1(m, *args, **{**kw, **extra})
            nm = f"{name} as {how}"
            if o.dead:
                ck.bad("select", nm, "the call always fails")
                continue
            v = o.value
            if how != "container" and v.op == "obj" and v.args[0] == I.qual(CC):
                ck.bad("select", nm, "answers a container", f.where(o))
                continue
            if how == "container":
                if v.op != "obj" or v.args[0] != I.qual(CC):
                    ck.decide(None if v.op not in ("list", "tuple", "obj") else False, "select", nm, f"answers {f.nice(I.freeze(v, o.st))} instead of a container", f.where(o))
                    continue
                t = I.getfield(v, "tokenscale", o.st)
                ck.decide(t is ts if t is not None and t.op in ("sym", "cls", "const", "attr", "obj") else None, "select", nm + ", token scale", f"has token scale {t} instead of the container's own", f.where(o))
                v = I.getfield(v, "curves", o.st)
            try:
                es = I.pieces(v, o.st)
            except Exception:
                es = None
            if es is None or any(ls for g, x, ls in es) or any(g is not TRUE for g, x, ls in es) or any(x.key not in inst for g, x, ls in es):
                ck.undecided("select", nm, "selection not determined")
                continue
            got = sorted(inst[x.key] for g, x, ls in es)
            ck.decide(got == sorted(want), "select", nm, f"selects {[f'c{i} ({ps[i]})' for i in got]} instead of {[f'c{i} ({ps[i]})' for i in want]}", f.where(o))

    def value(rule, name, want, m, *args, **kw):
        o = run1(m, *args, **kw)
        if o.dead:
            return ck.bad(rule, name, "the call always fails")
        v = mark(o.value, o.st)
        f.expect(rule, name, Out(I, o.st, v, o.live, o.facts), want)

    def mark(v, s):
        """the answer with the curves of the container named"""
        if v.key in inst:
            return sym(f"curve{inst[v.key]}")
        if v.op == "tuple":
            return mk("tuple", *[mark(x, s) for x in v.args])
        try:
            es = I.pieces(v, s) if v.op in ("obj", "list", "cat") and v.args[0] in ("list", "tuple") or v.op == "list" else None
        except Exception:
            es = None
        if es is not None and all(not ls for g, x, ls in es):
            C, G = f.canon(), AND(*f.facts)
            gs = [True if g is TRUE else imp3(C, G, g) for g, x, ls in es]
            if None not in gs and all(v is True or C.unsat(AND(G, g)) for v, (g, x, ls) in zip(gs, es)):
                return mk("tuple", *[mark(x, s) for v, (g, x, ls) in zip(gs, es) if v])
        return I.freeze(v, s)

    which("bypair AAA/BBB", [0, 1, 3], "bypair", const("AAA/BBB"))
    which("bypair AAA/BBB directed", [0], "bypair", const("AAA/BBB"), directed=TRUE)
    which("bypair BBB/AAA directed", [1, 3], "bypair", const("BBB/AAA"), directed=TRUE)
    which("bp AAA/BBB", [0, 1, 3], "bp", const("AAA/BBB"))
    which("bypair of another pair", [], "bypair", const("AAA/DDD"))
    which("bypairs AAA/BBB,CCC/DDD", [0, 1, 3, 4], "bypairs", const("AAA/BBB,CCC/DDD"))
    which("bypairs BBB/AAA,DDD/CCC directed", [1, 3], "bypairs", const("BBB/AAA,DDD/CCC"), directed=TRUE)
    which("bypairs (AAA/CCC)", [2], "bypairs", mk("tuple", const("AAA/CCC")))
    which("bypairs", [0, 1, 2, 3, 4], "bypairs")
    which("bycids c1,c4", [1, 4], "bycids", mk("tuple", const("c1"), const("c4")))
    which("bycids c1,c4 without c4", [1], "bycids", mk("tuple", const("c1"), const("c4")), exclude=mk("tuple", const("c4")))
    which("bycids without c1,c4", [0, 2, 3], "bycids", exclude=mk("tuple", const("c1"), const("c4")))
    which("bytknx AAA", [0, 2], "bytknx", const("AAA"))
    which("bytknx BBB", [1, 3], "bytknx", const("BBB"))
    which("bytkny AAA", [1, 3], "bytkny", const("AAA"))
    which("bytkny DDD", [4], "bytkny", const("DDD"))
    which("bytknb AAA", [0, 2], "bytknb", const("AAA"))
    which("bytknq AAA", [1, 3], "bytknq", const("AAA"))
    which("bytknxs AAA,CCC", [0, 2, 4], "bytknxs", const("AAA, CCC"))
    which("bytknxs", [0, 1, 2, 3, 4], "bytknxs")
    which("bytknys BBB,DDD", [0, 4], "bytknys", const("BBB, DDD"))
    which("bytknys", [0, 1, 2, 3, 4], "bytknys")
    value("select", "bycid c2", sym("curve2"), "bycid", const("c2"))
    value("select", "bycid unknown", NONE, "bycid", const("zz"))
    for i in range(5):
        value("select", f"curveix c{i}", const(i), "curveix", cs[i])
    value("select", "cids", mk("tuple", *[const(f"c{i}") for i in range(5)]), "cids")
    for m, w in (("tknxs", {"AAA", "BBB", "CCC"}), ("tknys", {"AAA", "BBB", "CCC", "DDD"}), ("tkns", {"AAA", "BBB", "CCC", "DDD"}), ("pairs", {"AAA/BBB", "AAA/CCC", "CCC/DDD"})):
        members(ck, f, run1(m), m, w)
    members(ck, f, run1("pairs", standardize=FALSE), "pairs as given", {"AAA/BBB", "BBB/AAA", "AAA/CCC", "CCC/DDD"})
    for nm, kw, w in (
            ("bothin AAA,BBB", dict(bothin="AAA,BBB"), {"AAA/BBB"}), ("onein CCC", dict(onein="CCC"), {"AAA/CCC", "CCC/DDD"}), ("contains BBB", dict(contains="BBB"), {"AAA/BBB"}),
            ("notin AAA", dict(notin="AAA"), {"CCC/DDD"}), ("tknbin AAA", dict(tknbin="AAA"), {"AAA/BBB", "AAA/CCC"}), ("tknbnotin AAA", dict(tknbnotin="AAA"), {"CCC/DDD"}),
            ("tknqin CCC,DDD", dict(tknqin="CCC,DDD"), {"AAA/CCC", "CCC/DDD"}), ("tknqnotin CCC", dict(tknqnotin="CCC"), {"AAA/BBB", "CCC/DDD"}),
            ("all of tknbin AAA, tknqin CCC", dict(tknbin="AAA", tknqin="CCC"), {"AAA/CCC"}), ("any of tknbin CCC, tknqin CCC", dict(tknbin="CCC", tknqin="CCC", anyall="any"), {"AAA/CCC", "CCC/DDD"}),
            ("both of two onein", dict(onein_1="AAA", onein_2="CCC"), {"AAA/CCC"}), ("no condition", {}, {"AAA/BBB", "AAA/CCC", "CCC/DDD"})):
        members(ck, f, run1("filter_pairs", **{a: const(b) for a, b in kw.items()}), "filter_pairs " + nm, w)
    f.rejects("select", "filter_pairs with an unknown condition", run1("filter_pairs", foo=const("AAA")), none_ok=False)
    # average prices
    y = [div(sym(f"k{i}"), sym(f"x{i}")) for i in range(5)]
    pr = [div(y[i], sym(f"x{i}")) for i in range(5)]
    one = const(1)
    avg = f.spec("(a+1/b+1/c)/3", a=pr[0], b=pr[1], c=pr[3])
    value("select", "price AAA in BBB", avg, "price", const("AAA"), const("BBB"))
    value("select", "price BBB in AAA", div(one, avg), "price", const("BBB"), const("AAA"))
    value("select", "price without curves", NONE, "price", const("AAA"), const("DDD"))
    for b, q, w in (("AAA", "BBB", [(0, False), (1, True), (3, True)]), ("BBB", "AAA", [(1, False), (3, False), (0, True)]), ("AAA", "CCC", [(2, False)]), ("DDD", "CCC", [(4, True)])):
        want = mk("tuple", *[mk("tuple", sym(f"curve{i}"), div(one, pr[i]) if inv else pr[i], sym(f"k{i}")) for i, inv in w])
        value("select", f"curves for the price estimate of {b} in {q}", want, "price_estimate", tknb=const(b), tknq=const(q), result=const("curves"))
        value("select", f"curves for the price estimate of the pair {b}/{q}", want, "price_estimate", pair=const(f"{b}/{q}"), result=const("curves"))
    value("select", "price estimate of a token in itself", one, "price_estimate", tknb=const("AAA"), tknq=const("AAA"))
    f.rejects("select", "price estimate without curves", run1("price_estimate", tknb=const("AAA"), tknq=const("DDD")), none_ok=False)
    value("select", "price estimate without curves, no error wanted", NONE, "price_estimate", tknb=const("AAA"), tknq=const("DDD"), raiseonerror=FALSE)
    estimates(ck)
    # adding
    for nm, wrapc in (("add", False), ("add inverted", True)):
        s = st1.copy()
        s.guard = ()
        for x in f.facts:
            s.push(x)
        s.guard = ()
        c5 = I.construct(I.qual(CPC), [], dict(k=sym("k0"), x=sym("x0"), pair=const("BBB/AAA"), cid=const("c5")), s, None)
        it = I.construct(I.qual("CPCInverter"), [c5], {}, s, None) if wrapc else c5
        l2 = I.new_obj("list")
        s.heap[(l2, "c")] = mk("list", mk("seg", it, TRUE, mk("loops")))
        c2 = I.construct(I.qual(CC), [lo], dict(tokenscale=ts), s, None)
        try:
            I.apply(I.getattr(c2, "add", s, None), [l2], {}, s, None)
        except Dead:
            ck.undecided("select", nm, "not determined")
            continue
        o = Out(I, s, NONE, TRUE, AND(*f.facts))
        j = J(ck, f, o, nm, c2)
        got = I.apply(I.getattr(c2, "bycid", s, None), [const("c5")], {}, s, None)
        ck.decide(got is c5 if got.op in ("obj", "const") else None, "select", f"{nm}: bycid", "answers another curve than the one added")
        t = I.getfield(c5, "tokenscale", s)
        ck.decide(t is ts if t is not None and t.op in ("sym", "cls", "const", "attr", "obj") else None, "select", f"{nm}: token scale", f"the added curve has the token scale {t} instead of the container's")
        j.eq("select", "number of curves", const(6), got=attr(f, o, c2, "__len__"))
        j.eq("select", "curveix", const(5), got=attr(f, o, c2, "curveix", c5))


def estimates(ck):
    """price estimates of a container whose reserves are numbers: an average weighted by the sizes of the curves
    that are not at a boundary; the pairs of a container all of whose curves are quoted the other way round"""
    f = ctx(ck, [])
    I, st = f.I, f.state()
    cs = [I.construct(I.qual(CPC), [], dict(k=const(k), x=const(x), pair=const(p), cid=const(f"c{i}"), **{a: const(v) for a, v in kw.items()}), st, None) for i, (k, x, p, kw) in enumerate((
        (4, 1, "AAA/BBB", {}), (9, 1, "BBB/AAA", {}), (25, 1, "AAA/BBB", dict(x_act=0)), (36, 4, "AAA/BBB", dict(y_act=0)), (64, 4, "AAA/BBB", dict(x_act=2, y_act=8)),
        (49, 1, "BBB/AAA", dict(x_act=0)), (64, 2, "CCC/AAA", {})))]

    def holder(cs):
        lo = I.new_obj("list")
        st.heap[(lo, "c")] = mk("list", *[mk("seg", c, TRUE, mk("loops")) for c in cs])
        cc = I.construct(I.qual(CC), [lo], {}, st, None)
        f.st0 = st
        f.st0.guard = ()
        return cc
    cc = holder(cs)
    q = lambda e: f.spec(e)
    avg, inv = q("(4*2+1/9*3+4*8)/(2+3+8)"), q("(1/4*2+9*3+1/4*8)/(2+3+8)")
    for b, t, w in (("AAA", "BBB", avg), ("BBB", "AAA", inv), ("CCC", "AAA", q("16+0")), ("AAA", "CCC", q("1/16"))):
        f.expect("select", f"price estimate of {b} in {t}", f.call(cc, "price_estimate", tknb=const(b), tknq=const(t)), w)
    for b, t, vs in (("AAA", "BBB", (("4+0", "2+0"), ("4+0", "8+0"), ("1/9", "3+0"))),):
        o = f.call(cc, "price_estimate", tknb=const(b), tknq=const(t), result=const("data"))
        v = o.value
        if o.dead or v.op != "tuple" or len(v.args) != 2 or any(x.op != "vec" for x in v.args):
            ck.decide(False if o.dead else None, "select", f"data of the price estimate of {b} in {t}", "the call always fails" if o.dead else "not determined")
            continue
        got = list(zip(*[x.args for x in v.args]))
        ok = [any(f.same(g[0], q(a), TRUE) is True and f.same(g[1], q(w), TRUE) is True for g in got) for a, w in vs]
        ck.decide(True if len(got) == len(vs) and all(ok) else False if len(got) != len(vs) else None, "select", f"data of the price estimate of {b} in {t}", f"is {f.nice(v)}", f.where(o))
    for i, (lo, hi) in enumerate(((0, 0), (0, 0), (1, 0), (0, 1), (0, 0))):
        for m, w in (("at_xmin", lo), ("at_ymax", lo), ("at_xmax", hi), ("at_ymin", hi), ("at_boundary", lo or hi)):
            f.expect("bounds", f"curve {i}: {m}", f.call(cs[i], m), const(bool(w)))
    members(ck, f, f.call(holder([cs[1]]), "pairs"), "pairs of a container with only a secondary pair", {"AAA/BBB"})
    members(ck, f, f.call(holder([cs[1], cs[6]]), "pairs", standardize=FALSE), "pairs as given of a container with only secondary pairs", {"BBB/AAA", "CCC/AAA"})
    cc = holder(cs)
    for m, kw, w in (("fpo", dict(onein="CCC", tknqin="BBB", anyall="any"), {"AAA/CCC", "AAA/BBB"}), ("fpo", dict(onein="CCC"), {"AAA/CCC"}), ("fpo", dict(onein="AAA", tknqin="BBB"), {"AAA/BBB"}),
                     ("fpb", dict(bothin="AAA, CCC", tknqin="BBB", anyall="any"), {"AAA/CCC", "AAA/BBB"}), ("fpb", dict(bothin="CCC,AAA"), {"AAA/CCC"}),
                     ("fpb", dict(bothin="AAA,BBB,CCC", tknqin="BBB"), {"AAA/BBB"}), ("fp", dict(tknbin=" AAA ", tknqin="BBB , DDD"), {"AAA/BBB"})):
        members(ck, f, f.call(cc, m, **{a: const(b) for a, b in kw.items()}), f"{m} {kw}", w)
    for x, y, w in ((2, 2, True), (2, 0.5, False), (0.5, 2, False), (0, 0, True), (0, 1, False), (0, -1, False), (1, 1, True), (1, 2, False), (2, 1, False), (-1, -1, True), (1, -1, False)):
        f.expect("bounds", f"isequal({x}, {y})", f.call(cs[0], "isequal", const(x), const(y)), const(w))
    for x, y, w in ((0, 0, False), (0, 1, True), (1, 1, False), (1, 2, True), (2, 1, False)):
        f.expect("bounds", f"isbigger({x}, {y})", f.call(cs[0], "isbigger", const(x), const(y)), const(w))


def members(ck, f, o, name, want):
    if o.dead:
        return ck.bad("select", name, "the call always fails")
    I = o.I
    try:
        es = I.pieces(o.value, o.st)
    except Exception:
        es = None
    if es is None or any(ls for g, x, ls in es) or any(g is not TRUE for g, x, ls in es) or any(x.op != "const" for g, x, ls in es):
        return ck.undecided("select", name, f"not determined: {f.nice(I.freeze(o.value, o.st))}")
    got = {cval(x) for g, x, ls in es}
    ck.decide(got == want, "select", name, f"is {sorted(got)} instead of {sorted(want)}", f.where(o))


def main():
    ck = Check("C18", "Constant-product curve formulas and constructors agree", RULES, floor=250,
               assumptions=["real arithmetic in place of floating point"])
    for g in (constructors, extras, handling, bounds, halves, pairs, container):
        try:
            g(ck)
        except Exception as e:
            ck.undecided("analysis", g.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
