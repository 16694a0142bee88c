from checks.formula import *

RULES = {
    "tokens": "base/quote/other-token tests single out the pair's two tokens",
    "price": "prices are quote tokens per base token; a price in the other numeraire is inverted",
    "amount": "amounts are multiplied by the price from base to quote and divided from quote to base",
    "reverse": "the reversed pair has the tokens exchanged and the inverse price convention",
    "limit": "a buy limit is met at or below, a sell limit at or above the limit price (inverted for the quote token and for the accepting side)",
    "names": "names and conventions of the pair are built from base and quote token in this order",
    "construct": "every way of creating a pair yields the same pair",
    "unknown": "tokens that are not in the pair are answered with None or an error",
}

b, q, s, p, a = sym("BASE"), sym("QUOTE"), sym("STRANGE"), sym("PRICE"), sym("AMT")


def pair(ck, cls="CarbonPair"):
    f = F(ck, positive=[p, a])
    P = f.obj("PAIR", cls, tknb=b, tknq=q)
    for t in (b, q, s):
        f.I.settype(t, ("str",))
    f.fact(truth(P), NOT(EQ(b, q)), NOT(EQ(q, b)), NOT(EQ(s, b)), NOT(EQ(b, s)), NOT(EQ(s, q)), NOT(EQ(q, s)), LT(const(0), p), LT(const(0), a),
           *[NOT(EQ(t, NONE)) for t in (b, q, s, p, a)])
    return f, P


def tokens(ck):
    f, P = pair(ck)
    for t, nm, isb, isq in ((b, "base", TRUE, FALSE), (q, "quote", FALSE, TRUE), (s, "strange", FALSE, FALSE)):
        f.expect("tokens", f"has_basetoken({nm})", f.call(P, "has_basetoken", t), isb, strict=True)
        f.expect("tokens", f"has_quotetoken({nm})", f.call(P, "has_quotetoken", t), isq, strict=True)
        f.expect("tokens", f"has_token({nm})", f.call(P, "has_token", t), OR(isb, isq), strict=True)
    f.expect("tokens", "other(base)", f.call(P, "other", b), q, strict=True)
    f.expect("tokens", "other(quote)", f.call(P, "other", q), b, strict=True)
    f.rejects("unknown", "other(strange)", f.call(P, "other", s))
    f.expect("tokens", "basetoken", f.call(P, "basetoken"), b)
    f.expect("tokens", "quotetoken", f.call(P, "quotetoken"), q)


def prices(ck):
    f, P = pair(ck)
    inv = arith("div", const(1), p)
    f.expect("price", "convert_price(quote)", f.call(P, "convert_price", p, q), p, strict=True)
    f.expect("price", "convert_price(base)", f.call(P, "convert_price", p, b), inv, strict=True)
    f.rejects("unknown", "convert_price(strange)", f.call(P, "convert_price", p, s))
    f.expect("price", "convert_price(None)", f.call(P, "convert_price", NONE, q), NONE, strict=True)
    f.expect("price", "price(base, quote)", f.call(P, "price", p, b, q), p, strict=True)
    f.expect("price", "price(quote, base)", f.call(P, "price", p, q, b), inv, strict=True)
    for x, y, nm in ((b, s, "base, strange"), (s, b, "strange, base"), (s, q, "strange, quote"), (q, s, "quote, strange"), (s, s, "strange, strange")):
        f.rejects("unknown", f"price({nm})", f.call(P, "price", p, x, y))
    for x, nm in ((b, "base"), (q, "quote")):
        f.rejects("price", f"price({nm}, {nm})", f.call(P, "price", p, x, x))
    f.expect("amount", "convert(base->quote)", f.call(P, "convert", a, b, q, p), arith("mul", a, p), strict=True)
    f.expect("amount", "convert(quote->base)", f.call(P, "convert", a, q, b, p), arith("div", a, p), strict=True)
    zero = const(0)
    f.expect("price", "convert_price(0, quote)", f.call(P, "convert_price", zero, q), zero, strict=True)
    f.expect("price", "price(0; base, quote)", f.call(P, "price", zero, b, q), zero, strict=True)
    f.expect("amount", "convert(base->quote at price 0)", f.call(P, "convert", a, b, q, zero), zero, strict=True)
    f.expect("amount", "convert(0, base->quote)", f.call(P, "convert", zero, b, q, p), zero, strict=True)
    f.expect("amount", "convert(0, quote->base)", f.call(P, "convert", zero, q, b, p), zero, strict=True)
    f.expect("amount", "convert(negative, base->quote)", f.call(P, "convert", NEG(a), b, q, p), NEG(arith("mul", a, p)), strict=True)
    f.expect("amount", "convert(negative, quote->base)", f.call(P, "convert", NEG(a), q, b, p), NEG(arith("div", a, p)), strict=True)
    for x, nm in ((b, "base"), (q, "quote")):
        f.expect("amount", f"convert({nm}->{nm})", f.call(P, "convert", a, x, x, p), a, strict=True)
    for x, y, nm in ((b, s, "base, strange"), (s, b, "strange, base"), (s, q, "strange, quote"), (q, s, "quote, strange"), (s, s, "strange, strange")):
        f.rejects("unknown", f"convert({nm})", f.call(P, "convert", a, x, y, p))


def reverse(ck):
    # tokens of an existing pair are upper case already
    f = F(ck, positive=[p, a], ident_methods={"upper"})
    P = f.obj("PAIR", "CarbonPair", tknb=b, tknq=q)
    for t in (b, q):
        f.I.settype(t, ("str",))
    f.fact(truth(P), truth(b), truth(q), NOT(EQ(b, q)), NOT(EQ(q, b)), LT(const(0), p), *[NOT(EQ(t, NONE)) for t in (b, q, p)])
    o = f.call(P, "reverse")
    if o.dead:
        return ck.bad("reverse", "reverse", "reversing a pair always fails", f.where(o))
    f.st0 = o.st
    I = f.I
    raw = I.getattr(P, "reverse", f.st0, None)
    f.expect("reverse", "reverse.tknb", f.call(raw, "tknb"), q, strict=True)
    f.expect("reverse", "reverse.tknq", f.call(raw, "tknq"), b, strict=True)
    f.expect("reverse", "reverse.convert_price", f.call(raw, "convert_price", p, q), arith("div", const(1), p), strict=True)
    f.expect("reverse", "reverse.pair_iso", f.call(raw, "pair_iso"), f.spec("f'{q}{b}'", b=b, q=q))
    rr = I.getattr(raw, "reverse", f.st0, None)
    f.expect("reverse", "reverse.reverse.tknb", f.call(rr, "tknb"), b, strict=True)
    f.expect("reverse", "reverse.reverse.tknq", f.call(rr, "tknq"), q, strict=True)


def limits(ck):
    f, P = pair(ck)
    L, C = sym("LIMIT"), sym("CURRENT")
    f.positive += [L, C]
    f.fact(LT(const(0), L), LT(const(0), C))
    below, above = LE(C, L), LE(L, C)
    cls = f.clsref("CarbonPair")
    k = {n: f.call(cls, n).value for n in ("BUY", "SELL", "MAKERBUY", "MAKERSELL", "TAKERBUY", "TAKERSELL")}
    for x, y in (("MAKERBUY", "BUY"), ("MAKERSELL", "SELL"), ("TAKERBUY", "SELL"), ("TAKERSELL", "BUY")):
        ck.decide(same3(f.canon(), k[x], k[y]), "limit", f"{x} is {y}", f"{x}={brief(k[x])} {y}={brief(k[y])}")
    ck.decide(None if unknown(f.canon(), k["BUY"], k["SELL"]) else not f.canon().same(k["BUY"], k["SELL"]), "limit", "BUY differs from SELL", "same constant")
    for t, nm in ((b, "base"), (q, "quote")):
        for side in ("BUY", "SELL"):
            for rev in (None, FALSE, TRUE):
                want = below if (side == "BUY") == (nm == "base") else above
                if rev is TRUE:
                    want = above if want is below else below
                kw = {} if rev is None else {"reverse": rev}
                o = f.call(P, "limit_is_met", t, L, k[side], C, **kw)
                f.expect("limit", f"limit_is_met({nm}, {side}{'' if rev is None else f', reverse={cval(rev)}'})", o, ITE(want, TRUE, FALSE), strict=True)
        o = f.call(P, "limit_is_met", t, L, const("hodl"), C, facts=[NOT(EQ(L, C)), NOT(EQ(C, L))])
        v = f.canon()
        if o.dead:
            ck.ok("limit", f"limit_is_met({nm}, unknown side)")
        else:
            ck.decide(None if unknown(v, o.value) else v.unsat(AND(o.facts, o.live, truth(o.value))), "limit", f"limit_is_met({nm}, unknown side)",
                      f"an unknown side is answered with {brief(o.value)}", f.where(o))
        up, dn = [LT(L, C), NOT(EQ(L, C)), NOT(EQ(C, L))], [LT(C, L), NOT(EQ(L, C)), NOT(EQ(C, L))]
        say = lambda rev, facts: f.call(P, "limit_is_met", t, L, k[side], C, asphrase=TRUE, reverse=rev, facts=facts)
        for side in ("BUY", "SELL"):
            for fs, gs, w in ((up, dn, "above"), (dn, up, "below")):
                x, y = say(TRUE, fs), say(FALSE, gs)
                f.expect("limit", f"phrase of limit_is_met({nm}, {side}, reverse) {w} the limit", x, y.value)
            x, y = say(FALSE, up), say(FALSE, dn)
            v = f.canon()
            ck.decide(None if unknown(v, x.value, y.value) else not v.same(x.value, y.value), "limit", f"phrase of limit_is_met({nm}, {side})", "the phrase is the same on both sides of the limit", f.where(x))
    for side in ("BUY", "SELL"):
        f.rejects("unknown", f"limit_is_met(strange, {side})", f.call(P, "limit_is_met", s, L, k[side], C))


def names(ck):
    f, P = pair(ck)
    iso, conv, slash, rslash = [f.spec(e, b=b, q=q) for e in ("f'{b}{q}'", "f'{q} per {b}'", "f'{b}/{q}'", "f'{q}/{b}'")]
    f.expect("names", "CarbonPair.pair_iso", f.call(P, "pair_iso"), iso)
    f.expect("names", "CarbonPair.price_convention", f.call(P, "price_convention"), conv)
    g = F(ck)
    S = g.obj("SPAIR", "SimplePair", tknb=b, tknq=q)
    for t in (b, q):
        g.I.settype(t, ("str",))
    g.fact(NOT(EQ(b, q)), NOT(EQ(q, b)))
    g.expect("names", "SimplePair.pair", g.call(S, "pair"), slash)
    g.expect("reverse", "SimplePair.pairr", g.call(S, "pairr"), rslash)
    g.expect("names", "SimplePair.pairt", g.call(S, "pairt"), mk("tuple", b, q))
    g.expect("reverse", "SimplePair.pairrt", g.call(S, "pairrt"), mk("tuple", q, b))
    g.expect("names", "SimplePair.tknx", g.call(S, "tknx"), b)
    g.expect("names", "SimplePair.tkny", g.call(S, "tkny"), q)
    return slash


def simple(ck):
    g = F(ck, positive=[p])
    S = g.obj("SPAIR", "SimplePair", tknb=b, tknq=q)
    R = g.obj("RPAIR", "SimplePair", tknb=q, tknq=b)
    for t in (b, q):
        g.I.settype(t, ("str",))
    g.fact(NOT(EQ(b, q)), NOT(EQ(q, b)), LT(const(0), p))
    ip, ir = g.call(S, "isprimary"), g.call(R, "isprimary")
    pr, sec = g.call(S, "primary"), g.call(S, "secondary")
    pair_, pairr = g.call(S, "pair").value, g.call(S, "pairr").value
    tv = truth(ip.value)
    g.expect("reverse", "SimplePair.primary", pr, ITE(tv, pair_, pairr))
    g.expect("reverse", "SimplePair.secondary", sec, ITE(tv, pairr, pair_))
    g.expect("price", "SimplePair.primary_price", g.call(S, "primary_price", p), ITE(tv, p, arith("div", const(1), p)))
    g.expect("reverse", "SimplePair.isprimary of the reversed pair", ir, ITE(truth(ip.value), FALSE, TRUE))
    n1 = g.call(S, "tknb_n"), g.call(S, "tknx_n"), g.call(S, "n", b)
    n2 = g.call(S, "tknq_n"), g.call(S, "tkny_n"), g.call(S, "n", q)
    for x, nm in ((0, "n"), (1, "x/y")):
        g.expect("names", f"SimplePair base token normalised ({nm})", n1[x], n1[2].value)
        g.expect("names", f"SimplePair quote token normalised ({nm})", n2[x], n2[2].value)


def construct(ck):
    up = {"ident_methods": {"upper", "strip"}}

    def fresh():
        f = F(ck, **up)
        for t in (b, q):
            f.I.settype(t, ("str",))
        f.fact(truth(b), truth(q), NOT(EQ(b, NONE)), NOT(EQ(q, NONE)), NOT(EQ(b, q)), NOT(EQ(q, b)))
        return f

    def chk(name, run):
        f = fresh()
        st = f.state()
        f.I.effects = []
        try:
            o = run(f, st)
        except Dead:
            return ck.bad("construct", name, "creating the pair always fails", f.where(Out(f.I, st, NONE, TRUE, TRUE)))
        ck.absorb(f.I)
        C = f.canon()
        for fld, w in (("tknb", b), ("tknq", q)):
            t = f.I.getattr(o, fld, st, None)
            ck.decide(same3(C, t, w, AND(*f.facts)), "construct", f"{name}.{fld}", f"{fld} is {brief(t)}")
        return f, st, o

    def via(member, *args, **kw):
        return lambda f, st: f.I.apply(f.I.getattr(f.clsref("CarbonPair"), member, st, None), list(args), kw, st, None)
    chk("CarbonPair(tknb=, tknq=)", lambda f, st: f.I.construct(f.I.qual("CarbonPair"), [], {"tknb": b, "tknq": q}, st, None))
    chk("CarbonPair.create(base, quote)", via("create", b, q))
    # an existing pair is used as it is
    f = fresh()
    P = f.obj("PAIR", "CarbonPair", tknb=b, tknq=q)
    f.fact(NOT(EQ(P, NONE)), truth(P))
    f.expect("construct", "CarbonPair.create(pair)", f.call(f.clsref("CarbonPair"), "create", P), P, strict=True)
    f.rejects("construct", "CarbonPair.create(pair, token)", f.call(f.clsref("CarbonPair"), "create", P, q), none_ok=False)
    f.expect("construct", "CarbonPair.create()", f.call(f.clsref("CarbonPair"), "create"), NONE, strict=True)
    for args, nm in (((b,), "base only"), ((), "nothing")):
        st = f.state()
        try:
            f.I.construct(f.I.qual("CarbonPair"), [], dict(zip(("tknb",), args)), st, None)
            C = f.canon()
            g = AND(*f.facts, *st.guard)
            ck.decide(True if C.unsat(g) else None if unknown(C, g) else False, "construct", f"CarbonPair({nm}) is rejected", "an incomplete pair is accepted")
        except Dead:
            ck.ok("construct", f"CarbonPair({nm}) is rejected")
    # from a string: BASE/QUOTE split at the slash
    for nm, run in (("CarbonPair(slashpair)", lambda f, st, x: f.I.construct(f.I.qual("CarbonPair"), [x], {}, st, None)),
                    ("CarbonPair.create(slashpair)", lambda f, st, x: via("create", x)(f, st)),
                    ("CarbonPair.from_slashpair", lambda f, st, x: via("from_slashpair", x)(f, st)),
                    ("SimplePair(slashpair)", lambda f, st, x: f.I.construct(f.I.qual("SimplePair"), [x], {}, st, None))):
        f = fresh()
        st = f.state()
        try:
            o = run(f, st, const("AAA/BBB"))
        except Dead:
            ck.bad("construct", nm, "creating the pair always fails")
            continue
        ck.absorb(f.I)
        C = f.canon()
        for fld, w in (("tknb", const("AAA")), ("tknq", const("BBB"))):
            t = f.I.freeze(f.I.getattr(o, fld, st, None), st)
            ck.decide(same3(C, t, w), "construct", f"{nm}.{fld}", f"{fld} of 'AAA/BBB' is {brief(t)}")
    for iso, tkn, x, y in (("ETHUSDC", "ETH", "ETH", "USDC"), ("ETHUSDC", "USDC", "ETH", "USDC"), ("USDCETH", "ETH", "USDC", "ETH"), ("ethusdc", "ETH", "ETH", "USDC"),
                           ("ETHUSD", None, "ETH", "USD"), ("LINKUSDC", None, "LINK", "USDC")):
        f = fresh()
        st = f.state()
        nm = f"CarbonPair.from_isopair_and_tkn({iso}, {tkn})"
        try:
            o = via("from_isopair_and_tkn", const(iso), NONE if tkn is None else const(tkn))(f, st)
        except Dead:
            ck.bad("construct", nm, "creating the pair always fails")
            continue
        ck.absorb(f.I)
        C = f.canon()
        for fld, w in (("tknb", const(x)), ("tknq", const(y))):
            t = f.I.freeze(f.I.getattr(o, fld, st, None), st)
            ck.decide(same3(C, t, w), "construct", f"{nm}.{fld}", f"{fld} is {brief(t)}")
    for iso, tkn in (("ETHUSDC", "LINK"), ("ETHUSDC", None), ("WETHUSDC", "ETH")):
        f = fresh()
        f.rejects("unknown", f"CarbonPair.from_isopair_and_tkn({iso}, {tkn})", f.call(f.clsref("CarbonPair"), "from_isopair_and_tkn", const(iso), NONE if tkn is None else const(tkn)), none_ok=False)
    for nm, run in (("SimplePair.from_tokens", lambda f, st: f.I.apply(f.I.getattr(f.clsref("SimplePair"), "from_tokens", st, None), [b, q], {}, st, None)),
                    ("SimplePair((base, quote))", lambda f, st: f.I.construct(f.I.qual("SimplePair"), [mk("tuple", b, q)], {}, st, None))):
        chk(nm, run)


def concrete(ck):
    """pairs given by concrete names: display names, decimals, copies, reversal, malformed input"""
    from checks.c20 import Sc
    s = Sc(ck, [p])
    s.env = dict(P=mk("cls", s.I.qual("CarbonPair")), p=p)
    for nm, pre, o in (("", "x = P('eth/UsdC')", False), (", original names", "x = P('eth/UsdC', display_orig=True)", True), (", by tokens", "x = P(tknb='eth', tknq='UsdC')", False), (", by tokens, original names", "x = P(tknb='eth', tknq='UsdC', display_orig=True)", True)):
        for what, w in (("tknb", "ETH"), ("tknq", "USDC"), ("slashpair", "ETH/USDC"), ("pair_slash", "ETH/USDC"), ("pair_iso", "ETHUSDC"), ("basetoken", "ETH"), ("quotetoken", "USDC"), ("price_convention", "USDC per ETH"),
                        ("tknb_o", "eth"), ("tknq_o", "UsdC"), ("slashpair_o", "eth/UsdC"), ("tknb_d", "eth" if o else "ETH"), ("tknq_d", "UsdC" if o else "USDC"), ("slashpair_d", "eth/UsdC" if o else "ETH/USDC"),
                        ("reverse.tknb", "USDC"), ("reverse.tknq", "ETH"), ("reverse.slashpair", "USDC/ETH"), ("other('ETH')", "USDC"), ("other('USDC')", "ETH")):
            s.eq("names", f"pair eth/UsdC{nm}: {what}", f"'{w}'", f"{pre}\nreturn x.{what}")
        s.eq("names", f"pair eth/UsdC{nm}: no decimals yet", "False", f"{pre}\nreturn x.has_decimals")
        s.eq("names", f"pair eth/UsdC{nm}: no difference of decimals yet", "None", f"{pre}\nreturn x.decdiffqb")
        s.eq("names", f"pair eth/UsdC{nm}: shown", "\"P('ETH/USDC')\"", f"{pre}\nreturn repr(x)")
        s.eq("names", f"pair eth/UsdC{nm}: shown with decimals", "\"P('ETH/USDC').sd(18,6)\"", f"{pre}\nreturn repr(x.sd(18, 6))")
    # decimals
    for nm, pre, db, dq in (("both given", "x = P('ETH/USDC').set_decimals(18, 6)", 18, 6), ("by name", "x = P('ETH/USDC').set_decimals(dec_tknb=18, dec_tknq=6)", 18, 6), ("from a dict", "x = P('ETH/USDC').set_decimals(dct={'USDC': 6, 'ETH': 18})", 18, 6),
                            ("base given, quote from a dict", "x = P('ETH/USDC').set_decimals(8, dct={'USDC': 6, 'ETH': 18})", 8, 6), ("quote given, base from a dict", "x = P('ETH/USDC').set_decimals(dec_tknq=9, dct={'USDC': 6, 'ETH': 18})", 18, 9),
                            ("zero decimals", "x = P('ETH/USDC').set_decimals(0, 0, {'USDC': 6, 'ETH': 18})", 0, 0), ("a copied pair", "x = P(P('ETH/USDC').sd(18, 6))", 18, 6), ("from a string", "x = P.from_slashpair('ETH/USDC', (18, 6))", 18, 6),
                            ("base only", "x = P('ETH/USDC').sd(18)", 18, None), ("quote only", "x = P('ETH/USDC').sd(dec_tknq=6)", None, 6), ("missing in the dict", "x = P('ETH/USDC').sd(dct={'ETH': 18})", 18, None),
                            ("set again", "x = P('ETH/USDC').sd(18, 6)\ny = x.sd(8, 7)", 8, 7)):
        both = db is not None and dq is not None
        for what, w in (("has_decimals", str(both)), ("decdiffqb", str(dq - db) if both else "None"), ("decimals['ETH']", str(db)), ("decimals['USDC']", str(dq)), ("decimals['_TKNB']", str(db)), ("decimals['_TKNQ']", str(dq)), ("decimals['_DIFFQB']", str(dq - db) if both else "None")):
            s.eq("construct", f"decimals, {nm}: {what}", w, f"{pre}\nreturn x.{what}")
    s.eq("construct", "setting decimals answers the pair", "True", "x = P('ETH/USDC')\nreturn x.sd(18, 6) is x")
    # ways of creating
    for nm, src in (("copy", "P(P('eth/usdc'))"), ("create from a string", "P.create('eth/usdc')"), ("create from tokens", "P.create('eth', 'usdc')"), ("from_slashpair", "P.from_slashpair('eth/usdc')"), ("from_slashpair with spaces", "P.from_slashpair(' eth / usdc ')"),
                    ("iso, base known", "P.from_isopair_and_tkn('ethusdc', 'ETH')"), ("iso, quote known", "P.from_isopair_and_tkn('ethusdc', 'USDC')")):
        s.eq("construct", f"{nm}: pair", "'ETH/USDC'", src + ".slashpair")
        s.eq("construct", f"{nm}: base", "'ETH'", src + ".tknb")
        s.eq("construct", f"{nm}: quote", "'USDC'", src + ".tknq")
    for nm, src in (("a string without slash", "P('ETHUSDC')"), ("three tokens", "P('A/B/C')"), ("three tokens, from_slashpair", "P.from_slashpair('A/B/C')"), ("no slash, from_slashpair", "P.from_slashpair('ETHUSDC')"), ("pair and base token", "P('ETH/USDC', tknb='ETH')"), ("pair and quote token", "P('ETH/USDC', tknq='USDC')"),
                    ("pair and both tokens", "P('ETH/USDC', 'ETH', 'USDC')"), ("base token only", "P(tknb='ETH')"), ("quote token only", "P(tknq='ETH')"), ("nothing", "P()"), ("two tokens in the wrong places", "P('ETH', 'USDC')"), ("a pair and a token", "P.create(P('ETH/USDC'), 'ETH')"),
                    ("a token inside the iso pair", "P.from_isopair_and_tkn('AETHB', 'ETH')"), ("a token that is not in the iso pair", "P.from_isopair_and_tkn('ETHUSDC', 'DAI')"), ("an iso pair that cannot be split", "P.from_isopair_and_tkn('ETHUSDC')")):
        s.rejects("construct", f"rejected: {nm}", src)
    s.eq("construct", "creating from nothing", "None", "P.create()")
    s.eq("construct", "iso pair split in the middle", "'LINK/USDC'", "P.from_isopair_and_tkn('linkusdc').slashpair")


def main():
    ck = Check("C12", "token-pair conversions follow the pair's price convention", RULES, floor=35, assumptions=[
        "prices and amounts are positive", "token names of an existing pair are upper case (str.upper is the identity on them)"])
    for g in (tokens, prices, reverse, limits, names, simple, construct, concrete):
        guarded(ck, "construct" if g is construct else "limit" if g is limits else "price", g.__name__, lambda: g(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
