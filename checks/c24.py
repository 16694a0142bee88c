"""Requests of the contract-interface client: each operation is evaluated abstractly down to the library call
that sends it; address, headers and every entry of the parameter record are compared, as value terms, with
what the caller gave; the answer is followed back into the result."""
import ast as _a

from checks.c20 import *

RULES = {
    "request": "an operation sends exactly one request, to the operation of its own name, with each argument in its place",
    "sync": "the synchronous or asynchronous api is used as asked, and its answer read accordingly",
    "market": "market operations send the addresses of the tokens of the pair in the stated direction and convert the answers to the pair's convention",
    "maker": "maker operations send token addresses, ranges and budgets of the pair asked for",
    "taker": "taker operations send the trade asked for, and compose the transaction from the same trade",
    "answer": "the answer of the server is returned, failures are reported",
    "token": "tokens are found by ticker and address, and amounts convert by their decimals",
    "format": "names and numbers are converted as documented",
    "reject": "contradictory arguments are rejected before anything is sent",
}
SDK = "carbon.sdk.carbonsdk.CarbonSDK"
TOK = "carbon.sdk.sdktoken"
URL, BASE = "http://h:1", "ab"


class Cl(Sc):
    """a scene with a client whose url, access token and token registry are given"""

    def __init__(self, ck, syms=(), tokens=True, sync=None, raiseonerror=None, pos=()):
        Sc.__init__(self, ck, [sym(x) for x in pos])
        I, st = self.I, self.st
        self.a, self.b, self.c = [I.construct(I.qual(f"{TOK}.SDKToken"), [const(t), const(x), const(d)], {}, st, None) for t, x, d in (("AAA", "0xA1", 18), ("BBB", "0xB2", 6), ("CCC", "0xC3", 8))]
        self.T = I.construct(I.qual(f"{TOK}.TokenContainer"), [mk("tuple", self.a, self.b, self.c)], {}, st, None)
        self.env = {x: sym(x) for x in list(syms) + list(pos)}
        GIVEN.update(list(syms) + list(pos))
        for x in list(syms) + list(pos):
            I.settype(self.env[x], ("str",) if x in ("s", "t", "id_", "pid", "tx") else ("float",))
        kw = dict(url=const(URL), token=const("tok"), apibase=const(BASE), Tokens=self.T if tokens else NONE, disclaimer=const(False), verbose=const(False))
        if sync is not None:
            kw["syncdefault"] = const(sync)
        if raiseonerror is not None:
            kw["raiseonerror"] = const(raiseonerror)
        self.env.update(S=I.construct(I.qual(SDK), [], kw, st, None), T=self.T, A=self.a, B=self.b)
        self.f.mapping = {}

    def run(self, src, **names):
        return self.ev(src, **names)

    def rejects(self, rule, name, src, **names):
        try:
            o = self.run(src, **names)
        except Exception as e:
            return self.ck.undecided(rule, name, f"{type(e).__name__}: {e}")
        C = self.f.canon()
        for e in self.sent(o):
            if imp3(C, o.facts, e.guard) is True or e.guard is TRUE:
                return self.ck.bad(rule, name, "a request is sent instead of rejecting the arguments", e.where)
        self.f.rejects(rule, name, o, none_ok=False)

    def inscene(self, src, o, **names):
        """value of an expression over the responses, evaluated with the client's registry"""
        return self.run(src, **{f"R{i}": sym(f"R{i}") for i in range(1, 5)}, **names).value

    def serve(self, *datas):
        """the server's answers, in turn (the last one again and again): source text of the data, over the scene's names"""
        n = [0]

        def hook(name, recv, a, kw, st):
            if name != "json" or recv.op != "call" or not str(recv.args[0].args[0]).startswith("requests."):
                return None
            src = datas[min(n[0], len(datas) - 1)]
            n[0] += 1
            return self.inline(f"{{'success': True, 'data': {src}}}", st)
        class Ok(dict):
            def __contains__(self, k):
                return k[1] == "status_code" and str(k[0].args[0].args[0]).startswith("requests.")

            def __getitem__(self, k):
                return const(200)
        self.I.meth_hook = hook
        self.I.attr_given = Ok()

    def inline(self, src, st):
        I = self.I
        node = _a.parse("def spec(%s):\n    return %s\n" % (", ".join(self.env), src)).body[0]
        return I.apply(I.mkfunc(node, "carbon", None, None, "spec"), list(self.env.values()), {}, st, None)

    def sent(self, o):
        """requests handed to the network library"""
        return [e for e in o.effects if e.kind == "ext_call" and str(e.key).startswith("requests.")]

    def requests(self, rule, name, src, *want, method="post", **names):
        """exactly these (address, parameters) are sent, in some order of equal ones; answers the outcome with the
        responses named R1, R2, .."""
        f, ck = self.f, self.ck
        try:
            o = self.run(src, **names)
        except Exception as e:
            ck.undecided(rule, name, f"{type(e).__name__}: {e}")
            return None
        if o.dead:
            ck.bad(rule, name, "the call always fails", f.where(o))
            return None
        for e in o.effects:
            if e.kind in ("badcall", "noattr", "noname") and imp3(f.canon(), o.facts, e.guard) is True:
                ck.bad(rule, name, f"the call always fails: {e.kind} {e.key}", e.where)
                return None
        es = self.sent(o)
        if len(es) != len(want):
            v = [x for x in es if x.guard is TRUE]
            if len(es) < len(want) and not any(e.kind in ("opaque_call", "mcall") and e.key in ("post", "get", "request", "send") for e in o.effects) or len(v) > len(want):
                ck.bad(rule, name, f"sends {len(es)} requests instead of {len(want)}", es[0].where if es else f.where(o))
            else:
                ck.undecided(rule, name, f"{len(es)} requests found")
            return None
        o.mapping = {}
        left = list(es)
        for i, (path, params) in enumerate(want):
            full = path if path.startswith("http") else f"{URL}/{BASE}/{path}"
            pick = [e for e in left if self.parts(e.value)[0] is const(full)] or left[:1]
            e = pick[0]
            left.remove(e)
            u, h, j, extra = self.parts(e.value)
            nm = f"{name}" + (f" [{i + 1}]" if len(want) > 1 else "")
            if str(e.key) != f"requests.{method}":
                ck.bad(rule, nm, f"{e.key} is used instead of {method}", e.where)
            else:
                ck.ok(rule, nm + ": method")
            v = same3(f.canon(), u, const(full), o.facts)
            ck.decide(v, rule, nm + ": address", f"goes to {f.nice(u)} instead of {full}", e.where)
            hv = self.entries(h)
            if hv is None:
                ck.undecided(rule, nm + ": headers", "not a known record")
            else:
                ck.decide(None if "token" not in hv else same3(f.canon(), hv["token"], const("tok"), o.facts), rule, nm + ": access token", f"is {f.nice(hv.get('token', NONE))}", e.where) if "token" in hv else ck.bad(rule, nm + ": access token", "is not sent", e.where)
            if method == "post":
                got = self.entries(j)
                if got is None:
                    ck.undecided(rule, nm + ": parameters", f.nice(j) if j is not None else "none")
                else:
                    for k in params:
                        if k not in got:
                            ck.bad(rule, f"{nm}: {k}", f"is not sent (sent: {', '.join(map(str, got))})", e.where)
                            continue
                        w = params[k]
                        w = self.spx(w, o) if isinstance(w, str) else w
                        self.value(rule, f"{nm}: {k}", got[k], w, o, e.where)
                    for k in got:
                        if k not in params:
                            ck.bad(rule, f"{nm}: {k}", "is sent but is no parameter of the operation", e.where)
            o.mapping[e.value] = sym(f"R{i + 1}")
        return o

    def spx(self, w, o):
        return self.sp(w, **{f"R{i}": sym(f"R{i}") for i in range(1, 5)})

    def value(self, rule, name, got, want, o, where=""):
        f = self.f
        C = f.canon()
        got = subst(got, o.mapping) if getattr(o, "mapping", None) else got
        v = same3(C, got, want, o.facts)
        self.ck.decide(v, rule, name, f"is {f.nice(got)} instead of {f.nice(want)}", where)

    def answers(self, rule, name, o, want, live=None):
        """result of the call in terms of the responses"""
        if o is None:
            return
        f = self.f
        m = o.mapping
        if isinstance(want, str):
            want = self.spx(want, o)
        g = subst(AND(o.facts, o.live), m)
        val = subst(o.value, m)
        C = f.canon()
        v = same3(C, C.prune(val, g), want, g)
        self.ck.decide(v, rule, name, f"is {f.nice(C.prune(val, g))} instead of {f.nice(want)}", f.where(o))
        if live is not None:
            lv = same3(C, subst(o.live, m), self.spx(live, o), TRUE)
            self.ck.decide(True if lv is True else None, rule, name + ": condition of success", f"succeeds when {f.nice(subst(o.live, m))}")

    def field(self, rule, name, o, **want):
        """fields of the record answered"""
        if o is None:
            return
        f = self.f
        for k, w in want.items():
            s = o.st.copy()
            s.guard = ()
            try:
                v = self.I.freeze(self.I.getattr(o.raw, k, s, None), s)
            except (Dead, Undecided) as e:
                self.ck.undecided(rule, f"{name}: {k}", type(e).__name__)
                continue
            g = subst(AND(o.facts, o.live), o.mapping)
            v = f.canon().prune(subst(v, o.mapping), g)
            if isinstance(w, str):
                w = self.spx(w, o)
            r = same3(f.canon(), v, w, g)
            self.ck.decide(r, rule, f"{name}: {k}", f"is {f.nice(v)} instead of {f.nice(w)}", f.where(o))

    def parts(self, t):
        """address, headers, parameters and further arguments of a library call"""
        pos, kw = [], {}
        for a in t.args[1:]:
            if a.op == "kw":
                kw[a.args[0] if not hasattr(a.args[0], "op") else cval(a.args[0])] = a.args[1]
            else:
                pos.append(a)
        u = pos[0] if pos else kw.get("url")
        j = kw.get("json", pos[2] if len(pos) > 2 else None)
        return u, kw.get("headers"), j, {k: v for k, v in kw.items() if k not in ("headers", "json", "url")}

    def entries(self, d):
        if d is None or d.op != "dict":
            return None
        r = {}
        for kv in d.args:
            if kv.op != "kv" or kv.args[0].op != "const" or kv.args[2] is not TRUE or kv.args[3].args:
                return None
            r[cval(kv.args[0])] = kv.args[1]
        return r


def plain(ck):
    """the one-to-one operations"""
    gas = "{'gasLimit': 999999999}"
    ov = "{'gasPrice': gp, 'gasLimit': 999999999}"
    st = dict(sourceToken="str(s)", targetToken="str(t)")
    ops = [
        ("hasLiquidityByPair(s, t)", "has_liquidity_by_pair", st, "d"),
        ("getLiquidityByPair(s, t)", "get_liquidity_by_pair", st, "f"),
        ("getMinRateByPair(s, t)", "get_min_rate_by_pair", st, "f"),
        ("getMaxRateByPair(s, t)", "get_max_rate_by_pair", st, "f"),
        ("getUserStrategies(s)", "get_user_strategies", dict(user="str(s)"), "d"),
        ("getTradeData(s, t, m, True)", "get_trade_data", dict(st, amount="str(m)", tradeByTargetAmount="True", filter="[]"), "d"),
        ("getTradeData(s, t, m, False, filter=u)", "get_trade_data", dict(st, amount="str(m)", tradeByTargetAmount="False", filter="u"), "d"),
        ("composeTradeByTargetTransaction(s, t, [{'id': 5, 'amount': m}], d, u, {'gasPrice': gp})", "compose_trade_by_target_transaction", dict(st, tradeActions="[{'id': '5', 'amount': m}]", deadline="str(d)", maxInput="str(u)", overrides=ov), "d"),
        ("composeTradeByTargetTransaction(s, t)", "compose_trade_by_target_transaction", dict(st, tradeActions="[]", deadline="'4294967295'", maxInput="'340282366920938463463374607431768211455'", overrides=gas), "d"),
        ("composeTradeBySourceTransaction(s, t, [{'id': 5, 'amount': m}], d, u, {'gasPrice': gp})", "compose_trade_by_source_transaction", dict(st, tradeActions="[{'id': '5', 'amount': m}]", deadline="str(d)", minReturn="str(u)", overrides=ov), "d"),
        ("composeTradeBySourceTransaction(s, t, None)", "compose_trade_by_source_transaction", dict(st, tradeActions="[]", deadline="'4294967295'", minReturn="'1'", overrides=gas), "d"),
        ("createBuySellStrategy(s, t, bl, bh, bb, sl, sh, sb, {'gasPrice': gp})", "create_buy_sell_strategy", dict(baseToken="str(s)", quoteToken="str(t)", buyPriceLow="str(bl)", buyPriceHigh="str(bh)", buyBudget="str(bb)",
                                                                                                            sellPriceLow="str(sl)", sellPriceHigh="str(sh)", sellBudget="str(sb)", overrides=ov), "d"),
        ("createBuySellStrategy(s, t, bl, bh, bb, sl, sh, sb)", "create_buy_sell_strategy", dict(baseToken="str(s)", quoteToken="str(t)", buyPriceLow="str(bl)", buyPriceHigh="str(bh)", buyBudget="str(bb)",
                                                                                           sellPriceLow="str(sl)", sellPriceHigh="str(sh)", sellBudget="str(sb)", overrides=gas), "d"),
        ("createBuySellStrategy(s, t, bl, bh, bb, sl, sh, sb, overrides={'gasLimit': 7})", "create_buy_sell_strategy", dict(baseToken="str(s)", quoteToken="str(t)", buyPriceLow="str(bl)", buyPriceHigh="str(bh)", buyBudget="str(bb)",
                                                                                                                      sellPriceLow="str(sl)", sellPriceHigh="str(sh)", sellBudget="str(sb)", overrides="{'gasLimit': 7}"), "d"),
        ("deleteStrategy(s)", "delete_strategy", dict(strategyId="str(s)", overrides=gas), "d"),
        ("deleteStrategy(s, {'gasPrice': gp})", "delete_strategy", dict(strategyId="str(s)", overrides=ov), "d"),
        ("hasLiquidityByPair(pairs=[{'sourceToken': s, 'targetToken': t}])", "has_liquidity_by_pair", dict(pairList="[{'sourceToken': str(s), 'targetToken': str(t)}]"), "d"),
        ("getRateLiquidityDepthByPair(s, t, [u, m])", "get_rate_liquidity_depth_by_pair", dict(st, rate="[str(u), str(m)]"), None),
        ("getRateLiquidityDepthByPair(s, t, 4)", "get_rate_liquidity_depth_by_pair", dict(st, rate="'4'"), None),
    ]
    syms = ["s", "t", "m", "u", "d", "gp", "bl", "bh", "bb", "sl", "sh", "sb"]
    for src, ep, params, ans in ops:
        for sync in (True, False) if "User" in src else (None,):
            c = Cl(ck, syms, sync=sync)
            nm = src if len(src) < 60 else src[:57] + ".."
            o = c.requests("request", nm + ("" if sync is None else f", default {'sync' if sync else 'async'}"), "S." + src, (f"scall/{ep}", params))
            if ans:
                c.answers("answer", nm, o, "R1.json()['data']" if ans == "d" else "float(R1.json()['data'])")
                if o is not None:
                    C = c.f.canon()
                    g = subst(AND(*o.st.guard), o.mapping) if o.st.guard else TRUE
                    lv = imp3(C, g, c.spx("R1.status_code == 200", o))
                    ck.decide(lv, "answer", nm + ": only a successful answer is returned", f"an answer is returned when {brief(g, 200)}", c.f.where(o))
            # the caller's own objects
    # requests outside the call api
    c = Cl(ck, ["t", "d"])
    for src, w in (("signsubmittx(t)", dict(tx="t", sign="True")), ("signsubmittx(t, False)", dict(tx="t", sign="False")), ("signsubmittx(t, sign=True)", dict(tx="t", sign="True"))):
        o = c.requests("request", src, "S." + src, ("signsubmittx", w))
        c.answers("answer", src, o, "R1.json()['data']")
    for src, ep, w in (("getERC20Balance([A, B], d)", "erc20/balance_of", dict(tokens="['0xa1', '0xb2']", address="d")), ("getERC20Decimals([B, A])", "erc20/decimals", dict(tokens="['0xb2', '0xa1']")),
                       ("getERC20Symbol([B, A])", "erc20/symbol", dict(tokens="['0xb2', '0xa1']")), ("getERC20Symbol(['0x1', '0x2'])", "erc20/symbol", dict(tokens="['0x1', '0x2']"))):
        c.requests("request", src, "S." + src, (ep, w))
    c.requests("request", "addr()", "S.addr()", ("addr", {}), method="get")
    c.requests("request", "version()", "S.version()", (URL + "/", {}), method="get")
    c.requests("request", "result(7)", "S.result(7)", ("result/7", {}), method="get")
    for tk in (True, False):
        c = Cl(ck, [], tokens=tk)
        o = c.requests("request", "pairs()" + ("" if tk else " without registry"), "S.pairs()", ("scall/pairs", {}))
        if not tk:
            c.answers("answer", "pairs() without registry", o, "R1.json()['data']")
        elif o is not None:
            want = c.run("[[T(q[0]), T(q[1])] for q in R1.json()['data']]", R1=sym("R1")).value
            g = subst(AND(o.facts, o.live), o.mapping)
            v = same3(c.f.canon(), subst(o.value, o.mapping), want, g)
            ck.decide(v, "answer", "pairs(): tokens of the client's registry", f"is {brief(subst(o.value, o.mapping), 200)}", c.f.where(o))
    c = Cl(ck, ["s", "t", "d"])
    for x in ("hasLiquidityByPair(s, t, pairs=[d])", "hasLiquidityByPair(s, pairs=[d])"):
        c.rejects("reject", x, "S." + x)
    c.rejects("reject", "GET with parameters", "S.req0('x', params={'a': 1}, method='get')")
    c.rejects("reject", "unknown method", "S.req0('x', params={'a': 1}, method='put')")
    # defaults of a client
    I = c.I
    for what, kw in (("url", "url='http://q:2'"), ("url with slash", "url='http://q:2/'")):
        c2 = Sc(ck, [])
        cl = mk("cls", c2.I.qual(SDK))
        c2.env = dict(K=cl)
        o = c2.ev(f"K({kw}, disclaimer=False, verbose=False).getUserStrategies('0x1')")
        es = [e for e in o.effects if e.kind == "ext_call" and str(e.key).startswith("requests.")]
        u = Cl.parts(c, es[0].value)[0] if es else NONE
        ck.decide(same3(c2.f.canon(), u, const("http://q:2/api/scall/get_user_strategies"), TRUE), "request", f"client with {what}: address", f"is {brief(u, 200)}", es[0].where if es else "")
        h = Cl.entries(c, Cl.parts(c, es[0].value)[1]) if es else None
        if h:
            ck.decide(same3(c2.f.canon(), h.get("token", NONE), const("carbontoken"), TRUE), "request", f"client with {what}: default access token", f"is {brief(h.get('token', NONE), 100)}")


def overrides(ck):
    """objects of the caller are left as they were"""
    c = Cl(ck, ["s", "t", "a", "m"])
    for src in ("composeTradeByTargetTransaction(s, t, acts, overrides=ov)", "composeTradeBySourceTransaction(s, t, acts, overrides=ov)", "createBuySellStrategy(s, t, 1, 2, 3, 4, 5, 6, ov)",
                "deleteStrategy(s, ov)", "updateStrategy(s, 'e', t, a, S.StrategyUpdate(), overrides=ov)", "mCreateStrategy('AAA/BBB', 4, 5, m, 2, 1, m, ov)",
                "mComposeTradeTransaction(A, B, acts, {'totalSourceAmount': 5, 'totalTargetAmount': 7}, True, overrides=ov)"):
        o = c.ev(f"ov = {{'gasPrice': m}}\nacts = [{{'id': 5, 'amount': m}}]\nS.{src}\nreturn (ov, acts)")
        c.f.expect("request", f"{src.split('(')[0]}: overrides and actions of the caller", o, c.sp("({'gasPrice': m}, [{'id': 5, 'amount': m}])"))


def syncs(ck):
    ops = [("mul(s, t, sync=%s)", "mul", dict(a="s", b="t")), ("plus(s, t, sync=%s)", "plus", dict(a="s", b="t")), ("qmul(s, t, sync=%s)", "qmul", dict(a="s", b="t")), ("qplus(s, t, sync=%s)", "qplus", dict(a="s", b="t")),
           ("getMatchActions(m, True, u, sync=%s)", "get_match_actions", dict(amountWei="str(m)", tradeByTargetAmount="True", orders="u")),
           ("getMatchActions(m, False, u, %s)", "get_match_actions", dict(amountWei="str(m)", tradeByTargetAmount="False", orders="u")),
           ("getMatchParams(s, t, m, True, sync=%s)", "get_match_params", dict(sourceToken="str(s)", targetToken="str(t)", amount="str(m)", tradeByTargetAmount="True")),
           ("getMatchParams(s, t, m, False, sync=%s)", "get_match_params", dict(sourceToken="str(s)", targetToken="str(t)", amount="str(m)", tradeByTargetAmount="False")),
           ("getTradeDataFromActions(s, t, True, [{'id': 5, 'amount': m}], sync=%s)", "get_trade_data_from_actions", dict(sourceToken="str(s)", targetToken="str(t)", tradeByTargetAmount="True", actionsWei="[{'id': '5', 'amount': m}]")),
           ("getTradeDataFromActions(s, t, False, sync=%s)", "get_trade_data_from_actions", dict(sourceToken="str(s)", targetToken="str(t)", tradeByTargetAmount="False", actionsWei="[]")),
           ("updateStrategy(m, u, s, t, S.StrategyUpdate(buyPriceLow=bl, buyPriceHigh=bh, sellBudget=sb, buyMarginalPrice=bm, sellMarginalPrice=sm), sync=%s)", "update_strategy",
            dict(strategyId="str(m)", encoded="u", baseToken="str(s)", quoteToken="str(t)", update="{'buyPriceLow': str(bl), 'buyPriceHigh': str(bh), 'sellBudget': str(sb)}",
                 buyMarginalPrice="str(bm)", sellMarginalPrice="str(sm)", overrides="{'gasLimit': 999999999}")),
           ("updateStrategy(m, u, s, t, S.StrategyUpdate(buyBudget=3, sellPriceLow=4, sellPriceHigh=5), sync=%s)", "update_strategy",
            dict(strategyId="str(m)", encoded="u", baseToken="str(s)", quoteToken="str(t)", update="{'buyBudget': '3', 'sellPriceLow': '4', 'sellPriceHigh': '5'}",
                 buyMarginalPrice="None", sellMarginalPrice="None", overrides="{'gasLimit': 999999999}")),
           ("updateStrategy(m, u, s, t, S.StrategyUpdate(), 8, 9, {'gasPrice': 3}, sync=%s)", "update_strategy",
            dict(strategyId="str(m)", encoded="u", baseToken="str(s)", quoteToken="str(t)", update="{}",
                 buyMarginalPrice="'8'", sellMarginalPrice="'9'", overrides="{'gasPrice': 3, 'gasLimit': 999999999}"))]
    syms = ["s", "t", "m", "u", "bl", "bh", "sb", "bm", "sm"]
    for src, ep, params in ops:
        for default, sync in ((False, True), (True, False), (True, None), (False, None)):
            c = Cl(ck, syms, sync=default)
            for x in ("bl", "bh", "sb", "bm", "sm"):
                c.I.settype(sym(x), ("float",))
            eff = default if sync is None else sync
            call = src % sync
            nm = f"{call if len(call) < 70 else call[:50] + '..'}, sync={sync}, default {default}"
            o = c.requests("sync", nm, "S." + call, (("scall/" if eff else "ascall/") + ep, params))
            if o is None:
                continue
            g = subst(AND(o.facts, o.live), o.mapping)
            val = c.f.canon().prune(subst(o.value, o.mapping), g)
            want = sym("R1") if eff else c.spx("R1.json()['reqid']", o)
            ck.decide(same3(c.f.canon(), val, want, g), "sync", nm + ": answer", f"is {brief(val, 200)} instead of {brief(want, 200)}", c.f.where(o))
    c = Cl(ck, syms, sync=True)
    for src in ("updateStrategy(m, u, s, t, {'buyPriceLow': bl})",):
        c.rejects("reject", src, "S." + src)


def market(ck):
    pr = "CarbonPair"
    for sells in ("AAA", "BBB"):
        other = "BBB" if sells == "AAA" else "AAA"
        ad = {"AAA": "'0xa1'", "BBB": "'0xb2'"}
        st = dict(sourceToken=ad[other], targetToken=ad[sells])
        side = "'ask'" if sells == "AAA" else "'bid'"
        inv = sells == "AAA"
        for pair in ("'AAA/BBB'", "P"):
            c = Cl(ck, ["r1", "r2"])
            c.env["P"] = c.I.construct(c.I.qual("carbon.pair.CarbonPair"), [const("AAA/BBB")], {}, c.st, None)
            nm = f"pair {'object' if pair == 'P' else 'text'}, AMM sells {'base' if inv else 'quote'}"
            o = c.requests("market", f"mHasLiquidityByPair, {nm}", f"S.mHasLiquidityByPair({pair}, '{sells}')", ("scall/has_liquidity_by_pair", st))
            c.answers("market", f"mHasLiquidityByPair, {nm}: answer", o, "R1.json()['data']")
            o = c.requests("market", f"mGetLiquidityByPair, {nm}", f"S.mGetLiquidityByPair({pair}, '{sells}')", ("scall/get_liquidity_by_pair", st))
            c.field("market", f"mGetLiquidityByPair, {nm}", o, amount="float(R1.json()['data'])", unit=f"'{sells}'", AMMsells=f"'{sells}'", bidAsk=side)
            o = c.requests("market", f"mGetRangeByPair, {nm}", f"S.mGetRangeByPair({pair}, '{sells}')", ("scall/get_min_rate_by_pair", st), ("scall/get_max_rate_by_pair", st))
            lo, hi = ["1/float(%s.json()['data'])" if inv else "float(%s.json()['data'])"] * 2
            c.field("market", f"mGetRangeByPair, {nm}", o, startRate=hi % "R2", endRate=lo % "R1", AMMsells=f"'{sells}'", AMMbuys=f"'{other}'", bidAsk=side, inverted=str(inv))
            for rate, want in (("4", "'0.25'" if inv else "'4'"), ("[r1, r2]", "[str(1/r1), str(1/r2)]" if inv else "[str(r1), str(r2)]")):
                c = Cl(ck, [], pos=["r1", "r2"])
                c.env["P"] = c.I.construct(c.I.qual("carbon.pair.CarbonPair"), [const("AAA/BBB")], {}, c.st, None)
                n2 = f"mGetRateLiquidityDepthByPair, rate {rate}, {nm}"
                o = c.requests("market", n2, f"S.mGetRateLiquidityDepthByPair({rate}, {pair}, '{sells}')", ("scall/get_rate_liquidity_depth_by_pair", dict(st, rate=want)))
                c.field("market", n2, o, unit=f"'{sells}'", AMMsells=f"'{sells}'", bidAsk=side, inverted=str(inv), rate=rate, islist=str(rate != "4"))
    c = Cl(ck, [])
    P = lambda s, t: "{'sourceToken': '%s', 'targetToken': '%s'}" % (s, t)
    for src, want in (("'AAA/BBB, BBB/CCC'", [P("0xa1", "0xb2"), P("0xb2", "0xa1"), P("0xb2", "0xc3"), P("0xc3", "0xb2")]), ("['CCC/AAA']", [P("0xc3", "0xa1"), P("0xa1", "0xc3")])):
        o = c.requests("market", f"mHasLiquidityByPairs({src})", f"S.mHasLiquidityByPairs({src})", ("scall/has_liquidity_by_pair", dict(pairList="[" + ", ".join(want) + "]")))
    big = "{'type': 'BigNumber', 'hex': '0x%x'}"
    for src, ans, wants in (
            ("len(S.mHasLiquidityByPairs('AAA/BBB, BBB/CCC'))", "[p1, p2, p3, p4]", ["4"]),
            ("S.mHasLiquidityByPairs('AAA/BBB, BBB/CCC')", "[p1, p2, p3, p4]", [("[%d]['AMMsells']" % i, repr(t)) for i, t in enumerate(("BBB", "AAA", "CCC", "BBB"))] + [("[%d]['hasLiquidity']" % i, f"p{i + 1}") for i in range(4)]
             + [("[%d]['pair'].slashpair" % i, repr(t)) for i, t in enumerate(("AAA/BBB", "AAA/BBB", "BBB/CCC", "BBB/CCC"))]),
            ("S.pairs()", "[['0xA1', '0xB2'], ['0xC3', '0xB2']]", [("[0][0].T", "'AAA'"), ("[0][1].T", "'BBB'"), ("[1][0].T", "'CCC'"), ("[1][1].d", "6")]),
            ("S.pairs(inclstr=True)", "[['0xA1', '0xB2'], ['0xC3', '0xB2']]", [("[1]", "'AAA/BBB, CCC/BBB'"), ("[0][1][0].T", "'CCC'")]),
            ("S.getERC20Decimals([B, A])", "[p1, p2]", [("['BBB']", "p1"), ("['AAA']", "p2")]),
            ("S.getERC20Symbol([B, A])", "[p1, p2]", [("['BBB']", "p1"), ("['AAA']", "p2")]),
            ("S.getERC20Balance([B, A], '0x7')", "[p1, p2]", []),
            ("S.mPrepareTrade('AAA/BBB', S.BUY, 'AAA', p4)", "{'tradeActions': [{'id': %s, 'amount': %s}], 'actionsWei': [{'id': %s, 'input': %s}], 'actionsTokenRes': [{'id': %s, 'output': '2.5'}], 'totalSourceAmount': '7.5', 'totalTargetAmount': '8.5'}" % tuple(big % x for x in (2 ** 130 + 5, 2 ** 70, 2 ** 130 + 5, 2 ** 71, 2 ** 130 + 5)),
             [(".tradeActions[0]['id']", str(2 ** 130 + 5)), (".tradeActions[0]['amount']", str(2 ** 70)), (".actionsWei[0]['input']", str(2 ** 71)), (".actionsTokenRes[0]['id']", str(2 ** 130 + 5)), (".actionsTokenRes[0]['output']", "2.5"),
              (".tradeData['totalSourceAmount']", "7.5"), (".tradeData['totalTargetAmount']", "8.5"), (".pair", "'AAA/BBB'")]),
            ("S.getTradeData('0xA1', '0xB2', p1, True)", "p2", [("", "p2")]),
            ("S.getUserStrategies('0x7')", "p2", [("", "p2")]),
            ("S.hasLiquidityByPair('0xA1', '0xB2')", "False", [("", "False")]),
            ("S.getMinRateByPair('0xA1', '0xB2')", "'2.5'", [("", "2.5")]),
    ):
        for w in wants:
            w = w if isinstance(w, tuple) else ("", w)
            c = Cl(ck, ["p1", "p2", "p3", "p4"], pos=["p4"])
            c.serve(ans)
            c.eq("answer", f"{src}{w[0]}", w[1], src + w[0])
    # market overview: bid side sells the quote token, ask side the base token
    c = Cl(ck, [])
    a, b = "'0xa1'", "'0xb2'"
    bid, ask = dict(sourceToken=a, targetToken=b), dict(sourceToken=b, targetToken=a)
    try:
        o = c.run("S.mGetMarketByPair('AAA/BBB')")
        es = c.sent(o)
        m = {}
        for e in es:
            u, h, j, x = c.parts(e.value)
            en = c.entries(j) or {}
            side = "ask" if en.get("targetToken") is const("0xa1") else "bid" if en.get("targetToken") is const("0xb2") else "?"
            op = str(cval(u)).rpartition("/")[2] if u.op == "const" else "?"
            m[e.value] = sym(f"{op}_{side}")
        o.mapping = m
        r = lambda op, side, inv: c.sp(("1/" if inv else "") + "float(r.json()['data'])", r=sym(f"{op}_{side}"))
        c.field("market", "mGetMarketByPair", o, pair="'AAA/BBB'", bestBid=r("get_max_rate_by_pair", "bid", False), lastBid=r("get_min_rate_by_pair", "bid", False), liqBid=r("get_liquidity_by_pair", "bid", False),
                bestAsk=r("get_max_rate_by_pair", "ask", True), lastAsk=r("get_min_rate_by_pair", "ask", True), liqAsk=r("get_liquidity_by_pair", "ask", False))
        ck.decide(len(es) == 6 or None, "market", "mGetMarketByPair: requests", f"{len(es)} requests")
    except Exception as e:
        ck.undecided("market", "mGetMarketByPair", f"{type(e).__name__}: {e}")
    # derived quantities of the overview record
    pos = ["bb", "d1", "d2", "x", "la", "lb"]
    s = Sc(ck, [sym(x) for x in pos])
    s.env = {x: sym(x) for x in pos}
    M = s.I.construct(s.I.qual("carbon.sdk.carbonsdk.MarketByPair"), [], dict(pair=const("AAA/BBB"), bestBid=s.sp("bb"), bestAsk=s.sp("bb+d1"), liqBid=sym("lb"), liqAsk=sym("la"), lastBid=s.sp("bb-d2"), lastAsk=s.sp("bb+d1+d2")), s.st, None)
    s.env["M"] = M
    for a, w in (("mid", "bb+d1/2"), ("spread", "d1"), ("spreadpc", "d1/(bb+d1/2)"), ("inverted", "False"), ("liqBidUnit", "'BBB'"), ("liqAskUnit", "'AAA'"), ("bidAMMSells", "'BBB'"), ("askAMMSells", "'AAA'"), ("bidTraderSells", "'AAA'"),
                 ("askTraderSells", "'BBB'"), ("ibid(0)", "bb"), ("ibid(1)", "bb-d2"), ("ibid(x)", "bb-x*d2"), ("iask(0)", "bb+d1"), ("iask(1)", "bb+d1+d2"), ("iask(x)", "bb+d1+x*d2"), ("iall(0)", "bb-d2"), ("iall(1)", "bb+d1+d2"), ("iall(x)", "bb-d2+x*(d1+2*d2)")):
        s.eq("market", f"MarketByPair.{a}", w, "M." + a)


def maker_taker(ck):
    g = "{'gasLimit': 999999999}"
    for pair, b, q in (("AAA/BBB", "0xa1", "0xb2"), ("CCC/AAA", "0xc3", "0xa1")):
        for (s1, s2), (b1, b2) in (((4, 5), (2, 1)), ((5, 4), (2, 1)), ((4, 5), (1, 2)), ((5, 4), (1, 2)), ((4, 4), (2, 2))):
            c = Cl(ck, ["sa", "ba"])
            o = c.requests("maker", f"mCreateStrategy {pair}, sell {s1}..{s2}, buy {b1}..{b2}", f"S.mCreateStrategy('{pair}', {s1}, {s2}, sa, {b1}, {b2}, ba, None)",
                           ("scall/create_buy_sell_strategy", dict(baseToken=f"'{b}'", quoteToken=f"'{q}'", buyPriceLow=f"'{min(b1, b2)}'", buyPriceHigh=f"'{max(b1, b2)}'", buyBudget="str(ba)", sellPriceLow=f"'{min(s1, s2)}'", sellPriceHigh=f"'{max(s1, s2)}'", sellBudget="str(sa)", overrides=g)))
    c = Cl(ck, ["sa", "ba"])
    c.rejects("reject", "mCreateStrategy: buying above selling", "S.mCreateStrategy('AAA/BBB', 2, 3, sa, 5, 4, ba, None)")
    c.rejects("reject", "mCreateStrategy: ranges overlap", "S.mCreateStrategy('AAA/BBB', 3, 5, sa, 4, 2, ba, None)")
    c.rejects("reject", "mCreateStrategy: ranges touch", "S.mCreateStrategy('AAA/BBB', 3, 5, sa, 3, 2, ba, None)")
    for pair in ("AAA/BBB", "BBB/AAA"):
        for side in ("BUY", "SELL"):
            for tkn in ("AAA", "BBB"):
                other = "BBB" if tkn == "AAA" else "AAA"
                ad = {"AAA": "0xa1", "BBB": "0xb2"}
                src, tgt = (tkn, other) if side == "SELL" else (other, tkn)
                c = Cl(ck, [], pos=["amt"])
                nm = f"mPrepareTrade {pair}, {side} {tkn}"
                o = c.requests("taker", nm, f"S.mPrepareTrade('{pair}', S.{side}, '{tkn}', amt)",
                               ("scall/get_trade_data", dict(sourceToken=f"'{ad[src]}'", targetToken=f"'{ad[tgt]}'", amount="str(amt)", tradeByTargetAmount=str(side == "BUY"), filter="[]")))
                c.field("taker", nm, o, pair=f"'{pair}'", tkn=f"'{tkn}'", traderBuySell=f"'{side}'", amount="amt", tradeByTargetAmount=str(side == "BUY"))
                if o is not None:
                    dat = "R1.json()['data']"
                    for k, w in (("tradeActions", f"[S.bn2intd(d) for d in {dat}['tradeActions']]"), ("actionsWei", f"[S.bn2intd(d) for d in {dat}['actionsWei']]"), ("actionsTokenRes", f"[S.bn2intd(S.str2floatd(d)) for d in {dat}['actionsTokenRes']]")):
                        c.field("taker", nm, o, **{k: c.inscene(w, o)})
                    for k, w in (("sourceToken", src), ("targetToken", tgt)):
                        s2 = o.st.copy()
                        v = c.I.getattr(c.I.getattr(o.raw, k, s2, None), "T", s2, None)
                        ck.decide(same3(c.f.canon(), v, const(w), TRUE), "taker", f"{nm}: {k}", f"is {brief(v, 100)} instead of {w}")
    c = Cl(ck, [], pos=["amt"])
    for x in ("'AAA/BBB', 'HOLD', 'AAA', amt", "'AAA/BBB', S.BUY, 'CCC', amt", "'AAA/BBB', S.BUY, 'AAA', 0", "'AAA/BBB', S.BUY, 'AAA', -amt", "'AAA/ZZZ', S.BUY, 'AAA', amt"):
        c.rejects("reject", f"mPrepareTrade({x})", f"S.mPrepareTrade({x})")
    c = Cl(ck, [], tokens=False, pos=["amt"])
    for x in ("mPrepareTrade('AAA/BBB', S.BUY, 'AAA', amt)", "mGetRangeByPair('AAA/BBB', 'AAA')", "mHasLiquidityByPair('AAA/BBB', 'AAA')", "mGetLiquidityByPair('AAA/BBB', 'AAA')"):
        c.rejects("reject", f"{x} without registry", "S." + x)
    # composing from prepared data
    pos = ["ts", "tt", "dev", "dl", "am"]
    for byt in (True, False):
        for dev, w in (("", "0.1"), (", maxDeviationPc=dev", "dev"), (", maxDeviationPc=0", "0")):
            for dl, wdl in (("", "'4294967295'"), (", deadline=dl", "str(dl)")):
                c = Cl(ck, [], pos=pos)
                ep = "compose_trade_by_target_transaction" if byt else "compose_trade_by_source_transaction"
                lim = dict(maxInput=f"str(ts*(1+{w}))") if byt else dict(minReturn=f"str(tt*(1-{w}))")
                c.requests("taker", f"mComposeTradeTransaction {'by target' if byt else 'by source'}{dev}{dl}",
                           f"S.mComposeTradeTransaction(A, B, [{{'id': 5, 'amount': am}}], {{'totalSourceAmount': ts, 'totalTargetAmount': tt}}, {byt}{dev}{dl})",
                           (f"scall/{ep}", dict(sourceToken="'0xa1'", targetToken="'0xb2'", tradeActions="[{'id': '5', 'amount': am}]", deadline=wdl, overrides=g, **lim)))
    c = Cl(ck, ["ta", "td", "x1"])
    c.env["D"] = c.I.construct(c.I.qual("carbon.sdk.carbonsdk.TradeData"), [], dict(pair=const("AAA/BBB"), tkn=const("AAA"), traderBuySell=const("BUY"), amount=sym("x1"), sourceToken=c.b, targetToken=c.a, tradeByTargetAmount=TRUE,
                                                                                 tradeActions=sym("ta"), actionsWei=sym("aw"), actionsTokenRes=sym("ar"), tradeData=sym("td")), c.st, None)
    for k, i, w in (("sourceToken", 0, "'BBB'"), ("targetToken", 1, "'AAA'"), ("tradeActions", 2, "ta"), ("tradeData", 3, "td"), ("tradeByTargetAmount", 4, "True")):
        t = ".T" if i < 2 else ""
        c.eq("taker", f"TradeData.cttkwargs: {k}", w, f"D.cttkwargs['{k}']{t}")
        c.eq("taker", f"TradeData.cttargs: {k}", w, f"D.cttargs[{i}]{t}")
    for k in ("len(D.cttkwargs)", "len(D.cttargs)"):
        c.eq("taker", f"TradeData: {k}", "5", k)


def answers(ck):
    """reading answers: asynchronous results, failures"""
    c = Cl(ck, [])
    o = c.requests("answer", "addr()", "S.addr()", ("addr", {}), method="get")
    if o is not None:
        want = c.sp("(R1.json()['data']) if R1.json()['success'] else None", R1=sym("R1"))
        ck.decide(same3(c.f.canon(), subst(o.value, o.mapping), want, TRUE), "answer", "addr(): address when successful", f"is {brief(subst(o.value, o.mapping), 200)}", c.f.where(o))
    # the client's own error response
    s = Cl(ck, ["m"])
    s.eq("answer", "error response: status", "900", "S.ErrorResponse(error=m).status_code")
    s.eq("answer", "error response: json", "{'status_code': 900, 'error': m}", "S.ErrorResponse(error=m).json()")
    s.rejects("reject", "result of an error response", "S._checkresult(S.ErrorResponse(error=m))")
    # strategies
    s = Cl(ck, [])
    e = "{'id': {'type': 'BigNumber', 'hex': '0x5'}, 'token0': '0xA1', 'token1': '0xB2', 'order0': {'y': y0, 'z': z0, 'A': a0, 'B': b0}, 'order1': {'y': y1, 'z': z1, 'A': a1, 'B': b1}}"
    names = {x: sym(x) for x in ("y0", "z0", "a0", "b0", "y1", "z1", "a1", "b1", "p1", "p2", "p3", "p4", "p5", "p6")}
    for n in names.values():
        s.I.settype(n, ("float",))
    s.env.update(names)
    src = "{'id': {'type': 'BigNumber', 'hex': '0x5'}, 'baseToken': '0xA1', 'quoteToken': '0xB2', 'buyPriceLow': p1, 'buyPriceHigh': p2, 'buyBudget': p3, 'sellPriceLow': p4, 'sellPriceHigh': p5, 'sellBudget': p6, 'encoded': %s}" % e
    for k, w in (("baseToken", "'0xa1'"), ("quoteToken", "'0xb2'"), ("baseTokenName", "'AAA'"), ("quoteTokenName", "'BBB'"), ("buyPriceLow", "float(p1)"), ("buyPriceHigh", "float(p2)"), ("buyBudget", "float(p3)"), ("sellPriceLow", "float(p4)"),
                 ("sellPriceHigh", "float(p5)"), ("sellBudget", "float(p6)"), ("id", "5")):
        s.eq("answer", f"reformatStrategy: {k}", w, f"S.reformatStrategy({src}, nsd=None)['{k}']")
    for o_ in ("order0", "order1"):
        for k in "yzAB":
            s.eq("answer", f"reformatStrategy: {o_} {k}", (k.lower() + o_[-1]), f"S.reformatStrategy({src}, nsd=None)['encoded']['{o_}']['{k}']")
    for k, w in (("token0", "'0xA1'"), ("token1", "'0xB2'"), ("id", "5")):
        s.eq("answer", f"reformatStrategy: encoded {k}", w, f"S.reformatStrategy({src}, nsd=None)['encoded']['{k}']")
    full = f"S.Strategy.from_sdk(S.reformatStrategy({src}, nsd=None))"
    for k, w in (("sid", "5"), ("baseToken", "'0xa1'"), ("quoteTokenName", "'BBB'"), ("buyPriceLow", "float(p1)"), ("sellBudget", "float(p6)"), ("encoded.sid", "5"), ("encoded.order0.token", "'0xA1'"), ("encoded.order1.token", "'0xB2'"),
                 ("encoded.token0", "'0xA1'"), ("encoded.token1", "'0xB2'"), ("encoded.order0.y", "y0"), ("encoded.order0.z", "z0"), ("encoded.order0.A", "a0"), ("encoded.order0.B", "b0"),
                 ("encoded.order1.y", "y1"), ("encoded.order1.z", "z1"), ("encoded.order1.A", "a1"), ("encoded.order1.B", "b1")):
        s.eq("answer", f"Strategy.from_sdk: {k}", w, f"{full}.{k}")
    s.eq("answer", "Strategy['id']", "5", full + "['id']")


def tokens(ck):
    s = Cl(ck, [], pos=["w"])
    a = s.a
    K = mk("cls", s.I.qual(f"{TOK}.SDKToken"))
    C = mk("cls", s.I.qual(f"{TOK}.TokenContainer"))
    s.env.update(K=K, C=C, NUL=mk("attr", mk("mod", TOK), "NULTKN"))
    for src in ("T['AAA']", "T['aaa']", "T.AAA", "T.byticker('AAA')", "T.byaddr('0xA1')", "T.byaddr('0xa1')", "T.byaddr1('0xA1')", "T('0xA1')", "T.restore('AAA')", "T.restore('0xa1')", "T.restore(A)"):
        s.same("token", src, a, src)
    for src, w in (("T.byaddr1('0xA1', tknonly=True)", "'AAA'"), ("T.byaddr1('0xFF')", "'0xff'"), ("T('0xFF')", "'0xff'"), ("T.byaddr1('0xFF', tknonly=True)", "'0xff'"), ("T.restore('ZZZ')", "None"), ("len(T)", "3"), ("T.containsall({'AAA', 'BBB'})", "True"), ("T.containsall({'AAA', 'ZZZ'})", "False"),
                   ("A.a", "'0xa1'"), ("A.T", "'AAA'"), ("A.d", "18"), ("A.name", "'AAA'"), ("B.w2t(w)", "w/1000000"), ("A.w2t(w)", "w/10**18"), ("B.t2w(w)", "int(w*1000000)"), ("A.isnul", "False"), ("K('nultkn', '0x0').isnul", "True"), ("T.byticker('ZZZ', raiseonerror=False) is NUL", "True"),
                   ("T.byticker('ZZZ', raiseonerror=False, returnnultkn=False)", "None"), ("T.byaddr('0xFF', raiseonerror=False) is NUL", "True"), ("T.byaddr('0xFF', raiseonerror=False, returnnultkn=False)", "None")):
        s.eq("token", src, w, src)
    for src, w in (("K(' ab ', ' 0xAb ', '6').token", "'AB'"), ("K(' ab ', ' 0xAb ', '6').address", "'0xab'"), ("K(' ab ', '0xAb', '6').decimals", "6"), ("K('ab', '0xAb').decimals", "None"), ("K('ab', '0xAb').name", "'AB'"), ("K('ab', '0xAb', 6, 'Nm').name", "'Nm'"),
                   ("K('ab', '0xAb').w2t(w)", "w/10**18"), ("K('ab', '0xAb').t2w(w)", "int(w*10**18)"), ("tuple(K('ab', '0xAb', 6, 'Nm'))", "('AB', '0xab', 6, 'Nm')"), ("K('ab', '0xAb') == K('AB', '0xaB')", "True"),
                   ("C.fromcsv('a, 0x1, 6\\nb, 0x2, 7').B.address", "'0x2'"), ("C.fromcsv('a, 0x1, 6\\nb, 0x2, 7').B.decimals", "7"), ("C.fromlist([('a', '0x1', 6), ('b', '0x2')]).A.decimals", "6"), ("C.fromlist([('a', '0x1', 6), ('b', '0x2')], False).raiseonerror", "False")):
        s.eq("token", src, w, src)
    for src in ("T['ZZZ']", "T.ZZZ", "T.byaddr('0xFF')", "T.restore('ZZZ', raiseonerror=True)", "K('ab', 'xyz')", "C([K('a', '0x1'), K('a', '0x2')])", "C([K('a', '0x1'), K('b', '0x1')])"):
        s.rejects("reject", src, src)


def formats(ck):
    s = Cl(ck, [], pos=["w"])
    s.env["w"] = sym("w")
    for src, w in (("S.join('http://x/', '/a')", "'http://x/a'"), ("S.join('http://x', 'a')", "'http://x/a'"), ("S.join('http://x/', 'a')", "'http://x/a'"), ("S.join('http://x', '/a')", "'http://x/a'"),
                   ("S.c2s('getTradeData')", "'get_trade_data'"), ("S.c2s('Plus')", "'plus'"), ("S.s2c('get_trade_data')", "'getTradeData'"), ("S.s2c(S.c2s('getMatchParams'))", "'getMatchParams'"),
                   ("S.bn2int({'type': 'BigNumber', 'hex': '0x1f'})", "31"), ("S.bn2int(w)", "w"), ("S.bn2int({'type': 'other', 'hex': '0x1f'})['hex']", "'0x1f'"), ("S.bn2intd({'a': {'type': 'BigNumber', 'hex': '0x1f'}, 'b': w})", "{'a': 31, 'b': w}"),
                   ("S.int2str(5)", "'5'"), ("S.int2str('x')", "'x'"), ("S.int2strd({'a': 5, 'b': 'x'})", "{'a': '5', 'b': 'x'}"), ("S.int2bn(31)", "{'type': 'BigNumber', 'hex': '0x1f'}"), ("S.int2bn(31.5)", "{'type': 'BigNumber', 'hex': '0x1f'}"),
                   ("S.bn2int(S.int2bn(77))", "77"), ("S.str2floatd({'a': '2.5', 'b': w})", "{'a': 2.5, 'b': w}"),
                   ("S.roundsd(123.4567, 6)", "123.457"), ("S.roundsd(0, 6)", "0"), ("S.roundsd('x', 6)", "'x'"), ("S.roundsd(0.00123456, 3)", "0.00123"), ("S.roundsd(-5, 3)", "-5")):
        s.eq("format", src, w, src)
    u = "S.StrategyUpdate(buyPriceLow=1, buyBudget=3, buyMarginalPrice=8)"
    for src, w in ((f"{u}.asdict()", "{'buyPriceLow': '1', 'buyBudget': '3'}"), (f"{u}.asdict(omitMarginalPrices=False)", "{'buyPriceLow': '1', 'buyBudget': '3', 'buyMarginalPrice': '8'}"), (f"{u}.buyMarginalPriceStr", "'8'"), (f"{u}.sellMarginalPriceStr", "None"),
                   (f"len({u}.asdict(omitNone=False))", "6"), (f"{u}.asdict(omitNone=False)['sellPriceLow']", "None")):
        s.eq("format", src.replace(u, "update"), w, src)


def main():
    ck = Check("C24", "Contract-interface calls send what the caller asked for", RULES, floor=400, assumptions=[
        "the network library sends exactly the address, headers and record it is given", "the server's answer is an arbitrary value"])
    for g in (plain, overrides, syncs, market, maker_taker, answers, tokens, formats):
        try:
            g(ck)
        except Exception as e:
            ck.undecided("analysis", g.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
