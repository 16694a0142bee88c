from checks.fixed import *

RULES = {
    "primitive": "the primitive operations compute the exact sum, difference and product, and the quotient rounded down or up",
    "formula": "the trade functions compute the ideal formulas up to rounding",
    "direction": "amounts paid out are rounded down and amounts taken in are rounded up, at every step",
    "fallback": "an amount that cannot be computed pays out nothing and takes in the largest amount",
    "rate": "a rate pairs an input with the output the trade function gives for it, within the order's balance",
    "match": "the actions of a match are rates of the orders they name, within the amount asked for",
}
x, y, z, A, Bq, ONE_ = sym("x"), sym("y"), sym("z"), sym("A"), sym("B_"), const(2 ** 48)


def scene(ck, pos=(A, Bq), nonneg=(x, y, z)):
    f = ctx(ck, list(pos), list(nonneg))
    for v in (x, y, z, A, Bq):
        f.I.settype(v, ("int",))
    return f


def primitives(ck):
    a, b, c = sym("a"), sym("b"), sym("c")
    f = ctx(ck, [a, b, c])
    for v in (a, b, c):
        f.I.settype(v, ("int",))
    for name, args, want, side in (("add", (a, b), "a+b", EXACT_), ("sub", (a, b), "a-b", EXACT_), ("mul", (a, b), "a*b", EXACT_), ("mulDivF", (a, b, c), "a*b/c", DOWN), ("mulDivC", (a, b, c), "a*b/c", UP)):
        o = f.func(IMPL + name, *args)
        judge(ck, f, o, name, f.spec(want, **{k: v for k, v in zip("abc", (a, b, c)) if k in want}), side, "primitive")


def judge(ck, f, o, name, want, side, rule=None):
    if o.dead:
        return ck.bad(rule or "formula", name, "the call always fails", f.where(o))
    for g, v in leaves(o.value):
        g = norm(AND(o.live, g))
        if f.canon().unsat(AND(o.facts, g)):
            continue
        verdicts = []
        tag = name + ("" if len(leaves(o.value)) == 1 else f", case {brief(v, 60)}")
        if v is NONE or v.op == "const" and num(v) is None or any(q.op == "div" for q in nodes(v)):
            ck.bad(rule or "direction", tag, "is not a whole number: " + brief(v, 120), f.where(o))
            continue
        for ideal, d in rounding(f, v, AND(o.facts, g)):
            if ideal is None:
                verdicts.append((None, None, d))
                continue
            try:
                C = f.canon()
                same = same3(C, ideal, want, o.facts)
                if same is False and any(q.op == "sym" and q.args[0].startswith("div") for q in C.deps(C.canon(ideal))):
                    same = None         # a shared divisor does not cancel
                verdicts.append((same, d, ideal))
            except (RecursionError, Undecided) as e:
                verdicts.append((None, d, str(e)))
        ok = [d for same, d, _ in verdicts if same is True]
        e = verdicts[0]
        ck.decide(True if ok else False if any(s is False for s, _, _ in verdicts) else None, rule or "formula", tag,
                  f"approximates {f.nice(e[2]) if isinstance(e[2], T) else e[2]} instead of {f.nice(want)}", f.where(o))
        if ok:
            good = [d for d in ok if d in (side, EXACT_)]
            ck.decide(True if good else None if all(d == MIXED for d in ok) and side is None else False, rule or "direction", f"{tag}: rounded {side}", f"rounded {ok[0]}", f.where(o))


def formulas(ck):
    for flat in (False, True):
        f = scene(ck, (Bq, z) if flat else (A, Bq, z), (x, y))
        a = const(0) if flat else A
        tag = ", one price" if flat else ""
        if flat:
            src, trg = f.spec("x*B*B/(o*o)", x=x, B=Bq, o=ONE_), f.spec("x*o*o/(B*B)", x=x, B=Bq, o=ONE_)
        else:
            src = f.spec("x*(A*y+B*z)**2/(A*x*(A*y+B*z)+z*z*o*o)", x=x, y=y, z=z, A=A, B=Bq, o=ONE_)
            trg = f.spec("x*z*z*o*o/((A*y+B*z)*(A*y+B*z-A*x))", x=x, y=y, z=z, A=A, B=Bq, o=ONE_)
        judge(ck, f, f.func(IMPL + "tradeBySourceAmountFunc", x, y, z, a, Bq), "tradeBySourceAmountFunc" + tag, src, DOWN)
        judge(ck, f, f.func(IMPL + "tradeByTargetAmountFunc", x, y, z, a, Bq), "tradeByTargetAmountFunc" + tag, trg, UP)


def uf(f, name, n):
    f.I.cfg.overrides[name] = lambda I, fn, args, kw, st, node: mk("call", mk("ext", "U." + n), *[I.freeze(q, st) for q in args])


def book(f, st, **kv):
    d = f.I.new_obj("dict")
    st.heap[(d, "c")] = mk("dict", *[mk("kv", const(k), v, TRUE, mk("loops")) for k, v in kv.items()])
    return d


def fallbacks(ck):
    f = scene(ck)
    f.st0 = f.state()
    d = book(f, f.st0, y=y, z=z, A=A, B=Bq)
    for n, short in (("tradeBySourceAmountFunc", "src"), ("tradeByTargetAmountFunc", "trg"), ("decodeFloat", "dec")):
        uf(f, n, short)
    dec = lambda t: mk("call", mk("ext", "U.dec"), t)
    for name, short, fb in (("tradeBySourceAmount", "src", 0), ("tradeByTargetAmount", "trg", MAX128)):
        v = mk("call", mk("ext", "U." + short), x, y, z, dec(A), dec(Bq))
        o = f.func(IMPL + name, x, d)
        want = ITE(AND(LE(const(0), v), LE(v, const(MAX128))), v, const(fb))
        f.I.settype(v, ("int",))
        f.canon().ext_unknown = False
        f.expect("fallback", name, o, want, strict=True)
    # the trade function itself fails
    for fn, why in (("def bad(x, y, z, A, B): raise ValueError('no')", "any error"), ("def bad(x, y, z, A, B): assert 0 > 1", "a failed bound")):
        s = Sc(ck, [x, y, z, A, Bq, sym("FB")])
        s.env = dict(x=x, y=y, z=z, A=A, B=Bq, FB=sym("FB"), ti=mk("mod", IMPL[:-1]))
        s.eq("fallback", f"fallback for {why}", "FB", f"{fn}\nreturn ti.tradeFunc(x, dict(y=y, z=z, A=5, B=7), bad, FB)")


def rates(ck):
    f = scene(ck)
    f.st0 = f.state()
    d = book(f, f.st0, y=y, z=z, A=A, B=Bq)
    frozen = f.I.freeze(d, f.st0)
    for n in ("tradeBySourceAmount", "tradeByTargetAmount"):
        uf(f, n, n)
    call = lambda n, q: mk("call", mk("ext", "U." + n), q, frozen)
    exits, loop = [], f.I.abstract_loop

    def record(st, dd, *a, test=None, **k):
        r = loop(st, dd, *a, test=test, **k)
        if test is not None:
            exits.append(NOT(f.I.truthy(f.I.ev_pure(test, st), st, test)))
        return r
    f.I.abstract_loop = record
    fields = lambda o, what: f.I.freeze(f.I.getattr(o.raw, what, o.st, None), o.st)

    def run_(name):
        st = f.state()
        st.guard = ()
        f.I.effects = []
        fn = f.I.from_lookup(f.I.p.lookup(MATCH[:-1], name), name, st)
        v = f.I.apply(fn, [x, d], {}, st, None)
        o = Out(f.I, st, f.I.freeze(v, st), AND(*st.guard) if st.guard else TRUE, AND(*f.facts))
        o.raw = v
        return o
    C = f.canon()
    C.ext_unknown = False
    # by target
    o = run_("rateByTargetAmount")
    i, out = fields(o, "input"), fields(o, "output")
    low = mk("min", x, y)
    ck.decide(same3(C, out, call("tradeByTargetAmount", i), o.facts), "rate", "rateByTargetAmount: output of the input", f"is {f.nice(out)}", f.where(o))
    ck.decide(True if i is low else same3(C, i, low, o.facts), "rate", "rateByTargetAmount: at most the balance", f"is {f.nice(i)}", f.where(o))
    # by source
    o = run_("rateBySourceAmount")
    i, out = fields(o, "input"), fields(o, "output")

    def paired(i, out):
        """out is what the trade function gives for i: for all rounds of a loop at once"""
        if i.op == "ite" and out.op == "ite" and i.args[0] is out.args[0]:
            r = [paired(i.args[k], out.args[k]) for k in (1, 2)]
            return False if False in r else None if None in r else True
        if i.op == "after" and out.op == "after" and i.args[0] is out.args[0]:
            r = [paired(i.args[k], out.args[k]) for k in (1, 2)]
            loops = any(q.op == "ite" for e in (i.args[2], out.args[2]) for q in nodes(e))
            return True if r == [True, True] else None if None in r or loops else False
        if i.op == "after" or out.op == "after" or i.op == "ite" or out.op == "ite":
            return None
        want = call("tradeBySourceAmount", i)
        if out is want:
            return True
        if "loopvar" in str(out) and out.op == "loopvar":
            return False
        return same3(C, out, want, o.facts)
    ck.decide(paired(i, out), "rate", "rateBySourceAmount: output of the input", f"pairs {brief(i, 160)} with {brief(out, 160)}", f.where(o))
    for g, v in leaves(out):
        iv = [b for h, b in leaves(i) if h is g]
        if v.op == "after":
            r = imp3(C, AND(g, *exits), LE(v, y))
        else:
            r = imp3(C, AND(o.facts, g), LE(v, y))
        ck.decide(r, "rate", f"rateBySourceAmount: at most the balance, {brief(v, 60)}", "may pay out more than the balance", f.where(o))
        if iv and v.op == "after":
            start = iv[0].args[1] if iv[0].op == "after" else iv[0]
            ck.decide(same3(C, start, call("tradeByTargetAmount", y), o.facts), "rate", "rateBySourceAmount: input that buys the balance", f"starts from {f.nice(start)}", f.where(o))
        elif iv:
            ck.decide(same3(C, iv[0], x, o.facts), "rate", "rateBySourceAmount: input asked for", f"is {f.nice(iv[0])}", f.where(o))


def limits(ck):
    f = scene(ck, (A, Bq, z), (x, y))
    uf(f, "decodeFloat", "dec")
    f.I.cfg.overrides["decodeFloat"] = lambda I, fn, args, kw, st, node: args[0]
    f.st0 = f.state()
    d = book(f, f.st0, y=y, z=z, A=A, B=Bq)
    lim = sym("lim")
    f.I.settype(lim, ("int",))
    judge(ck, f, f.func(MATCH + "getLimit", d), "getLimit", f.spec("(y*A+z*B)/z", y=y, z=z, A=A, B=Bq), DOWN, "match")
    judge(ck, f, f.func(MATCH + "equalizeByTargetAmount", d, lim), "equalizeByTargetAmount", f.spec("(y*A+z*(B-l))/A", y=y, z=z, A=A, B=Bq, l=lim), DOWN, "match")
    e = book(f, f.st0, y=y, z=z, A=const(0), B=Bq)
    judge(ck, f, f.func(MATCH + "equalizeByTargetAmount", e, lim), "equalizeByTargetAmount, one price", y, EXACT_, "match")
    e = book(f, f.st0, y=y, z=const(0), A=A, B=Bq)
    judge(ck, f, f.func(MATCH + "getLimit", e), "getLimit, no capacity", const(0), EXACT_, "match")


def equalize(ck):
    f = scene(ck)
    f.st0 = f.state()
    d = book(f, f.st0, y=y, z=z, A=A, B=Bq)
    fr = f.I.freeze(d, f.st0)
    lim = sym("lim")
    uf(f, "tradeByTargetAmount", "trg")
    uf(f, "equalizeByTargetAmount", "eq")
    f.canon().ext_unknown = False
    u = lambda k, *a: mk("call", mk("ext", "U." + k), *a)
    f.expect("match", "equalizeBySourceAmount", f.func(MATCH + "equalizeBySourceAmount", d, lim), u("trg", u("eq", fr, lim), fr), strict=True)


def matches(ck):
    n, i0, o0, i1, o1, w, v = [sym(k) for k in ("n", "i0", "o0", "i1", "o1", "w", "v")]
    s = Sc(ck, [n, i0, o0, i1, o1, w, v])
    for q in (n, i0, o0, i1, o1, w, v):
        s.I.settype(q, ("int",))
    s.f.canon().ext_unknown = False
    s.env = dict(n=n, i0=i0, o0=o0, i1=i1, o1=o1, w=w, v=v, mi=mk("mod", MATCH[:-1]), tr=mk("ext", "U.tr"), cmp=mk("ext", "functools.cmp_to_key"))
    tr = lambda a, o: mk("call", mk("ext", "U.tr"), s.sp(a), const(o))
    pre = "T = lambda a, o: mi.Rate(a, tr(a, o))\nQ = [mi.Quote('p', mi.Rate(i0, o0)), mi.Quote('q', mi.Rate(i1, o1))]\nF = lambda r: %s\nR = mi.matchFast(%s, {'p': 'P', 'q': 'K'}, Q, F, T)\nreturn "
    yes, nofirst = "True", "r.input is not i0"
    cases = [("less than the first", yes, "i0-w", [("p", "i0-w", tr("i0-w", "P"))], dict(i0=arith("add", n, w), **{})),
             ("exactly the first", yes, "i0", [("p", "i0", o0)], {}),
             ("some of the second", yes, "i0+n", [("p", "i0", o0), ("q", "n", tr("n", "K"))], dict(i1=arith("add", n, w))),
             ("exactly both", yes, "i0+i1", [("p", "i0", o0), ("q", "i1", o1)], {}),
             ("more than both", yes, "i0+i1+w", [("p", "i0", o0), ("q", "i1", o1)], {}),
             ("none accepted", "False", "i0+i1+w", [], {}),
             ("none accepted of a part", "False", "n", [], dict(i0=arith("add", n, w)))]
    for nm, flt, amt, want, names in cases:
        if nm == "less than the first":
            amt, want = "n", [("p", "n", mk("call", mk("ext", "U.tr"), n, const("P")))]
        src = pre % (flt, amt)
        s.eq("match", f"fast, {nm}: number of actions", str(len(want)), src + "len(R)", **names)
        for k, (ident, inp, out) in enumerate(want):
            s.eq("match", f"fast, {nm}: action {k} order", f"'{ident}'", src + f"R[{k}].id", **names)
            s.eq("match", f"fast, {nm}: action {k} input", s.sp(inp, **names), src + f"R[{k}].input", **names)
            s.eq("match", f"fast, {nm}: action {k} output", out, src + f"R[{k}].output", **names)
    # quotes
    s.eq("match", "quotes of one order", mk("tuple", const(1), const("p"), s.sp("n"), tr("n", "P")), "Q = mi.sortedQuotes(n, {'p': 'P'}, lambda a, o: mi.Rate(a, tr(a, o)), mi.sortByMinRate)\nreturn (len(Q), Q[0].id, Q[0].rate.input, Q[0].rate.output)")
    for srt, first, second in (("sortByMinRate", "q", "p"), ("sortByMaxRate", "p", "q")):
        s.eq("match", f"quotes by {srt}", mk("tuple", const(first), const(second)), f"Q = mi.sortedQuotes(3, {{'p': 5, 'q': 9}}, lambda a, o: mi.Rate(a, o), mi.{srt})\nreturn (Q[0].id, Q[1].id)")
    # the best match where the search for a limit is short: equal to the sum, more than it, less than it
    best = """
P = {'y': 1, 'z': 1, 'A': 0, 'B': %d}
K = {'y': 2, 'z': 1, 'A': 0, 'B': 4}
E = lambda o, l: (i0 + n + i1 if l == 0 else i0 + n if l == 4 else i0) if o['y'] == 1 else (i1 if l == 0 else 0)
T = lambda a, o: mi.Rate(a + %s, tr(a, 'P' if o['y'] == 1 else 'K'))
F = lambda r: %s
O = {'p': P, 'q': K}
Q = [mi.Quote('p', mi.Rate(1, 2)), mi.Quote('q', mi.Rate(1, 1))][:%d]
R = mi.matchBest(%s, O, Q, F, T, E)
return """
    rows = [("one order, the whole", 1, "0", "True", 1, "i0 + n + i1", [("p", "i0 + n + i1", "P")]),
            ("one order, more than the whole", 1, "0", "True", 1, "i0 + n + i1 + w", [("p", "i0 + n + i1 + w", "P")]),
            ("one order, less than the whole", 1, "0", "True", 1, "i0 + n", [("p", "i0 + n", "P")]),
            ("one order, not to be filled further", 1, "v", "True", 1, "i0 + n + i1 + v + w", [("p", "i0 + n + i1 + v", "P")]),
            ("one order, filtered", 1, "0", "False", 1, "i0 + n + i1", []),
            ("two orders, the first up to the second", 5, "0", "True", 2, "i0 + n", [("p", "i0 + n", "P")]),
            ("two orders, part of the first", 5, "0", "True", 2, "n", [("p", "n", "P")]),
            ("two orders, both", 5, "0", "True", 2, "i0 + n + 2*i1", [("p", "i0 + n + i1", "P"), ("q", "i1", "K")]),
            ("two orders, more than both", 5, "0", "True", 2, "i0 + n + 2*i1 + w", [("p", "i0 + n + i1 + w", "P"), ("q", "i1", "K")]),
            ("two orders, a limit between", 6, "0", "True", 2, "i0", [("p", "i0", "P")])]
    rows += [(f"two orders, a limit found at {l}", 8, "0", "True", 2, a, [("p", a, "P")]) for l, a in ((5, "w + n + i1"), (6, "w + n"), (7, "w"), ("between 6 and 7", "w + n/2"), ("between 5 and 6", "w + n + i1/2"))]
    for nm, lim, extra, flt, cnt, amt, want in rows:
        src = best % (lim, extra, flt, cnt, amt)
        if lim == 8:
            src = src.replace("i0 + n + i1 if l == 0 else i0 + n if l == 4 else i0)", "(0, 0, 0, 0, w + n + i1 + v, w + n + i1, w + n, w)[l])")
        s.eq("match", f"best, {nm}: number of actions", str(len(want)), src + "len(R)")
        for k, (ident, inp, who) in enumerate(want):
            arg = inp if extra == "0" else f"{inp} - {extra}"
            for what, val in (("id", f"'{ident}'"), ("input", inp), ("output", mk("call", mk("ext", "U.tr"), s.ev(f"return {arg} + 0").value if arg.count("+") else s.sp(arg), const(who)))):
                s.eq("match", f"best, {nm}: action {k} {what}", val, src + f"R[{k}].{what}")
    # the parts of a match
    for name, trade in (("matchByTargetAmount", "tradeByTargetAmount"), ("matchBySourceAmount", "tradeBySourceAmount")):
        q = Sc(ck, [n, w, v])
        for k in (n, w, v):
            q.I.settype(k, ("int",))
        q.f.canon().ext_unknown = False
        q.env = dict(n=n, w=w, v=v, mi=mk("mod", MATCH[:-1]))
        q.I.cfg.overrides["tradeByTargetAmount"] = lambda I, fn, args, kw, st, node: arith("mul", args[0], const(3))
        q.I.cfg.overrides["tradeBySourceAmount"] = lambda I, fn, args, kw, st, node: arith("mul", args[0], const(2))
        pre = f"R = mi.{name}(n, {{'p': {{'y': 3*n + w, 'z': 3*n + w, 'A': 0, 'B': v}}}}, %s, lambda r: True)\nreturn "
        per = 3 if "Target" in name else 2
        for ty in ("Fast", "Best"):
            other = {"Fast": "Best", "Best": "Fast"}[ty]
            q.eq("match", f"{name}: only {ty}", "True", pre % f"['{ty}']" + f"R['{other}'] is None")
        for what, val in (("id", "'p'"), ("input", "n"), ("output", f"{per}*n")):
            q.eq("match", f"{name}, fast: {what}", val, pre % "['Fast']" + f"R['Fast'][0].{what}")
    d = "{'liquidity': '7', 'lowestRate': '1', 'highestRate': '1', 'marginalRate': '1'}"
    for name in ("matchByTargetAmount", "matchBySourceAmount"):
        for (inp, out), want in (((1, 1), True), ((0, 1), False), ((1, 0), False), ((0, 0), False)):
            q = Sc(ck, [n])
            q.env = dict(mi=mk("mod", MATCH[:-1]), n=n)
            got = {}

            def spy(I, fn, args, kw, st, node):
                got["filter"] = args[3]
                return I.apply(args[3], [I.construct(I.qual(MATCH + "Rate"), [const(inp), const(out)], {}, st, node)], {}, st, node)
            q.I.cfg.overrides[name] = spy
            q.eq("match", f"{name}: an action of {inp} for {out}", str(want), f"mi.execute('{name}', 5, [])")
        q = Sc(ck, [n])
        q.env = dict(mi=mk("mod", MATCH[:-1]), n=n)
        q.I.cfg.overrides[name] = lambda I, fn, args, kw, st, node: args[0]
        q.eq("match", f"{name}: a whole amount", "7", f"mi.execute('{name}', '7', [])")
    # best rate first
    nums = [(3, 7), (3, 8), (6, 14), (2, 9), (5, 1), (10, 3)]
    for a in nums:
        for b in nums:
            up = a[1] * b[0], b[1] * a[0]
            c = (up[0] > up[1]) - (up[0] < up[1]) or (a[1] > b[1]) - (a[1] < b[1])
            q = f"mi.Quote(1, mi.Rate({a[0]}, {a[1]})), mi.Quote(2, mi.Rate({b[0]}, {b[1]}))"
            s.eq("match", f"order of rates {a} and {b}, by source", "True", f"return (lambda r: r {'<' if c > 0 else '>' if c < 0 else '=='} 0)(mi.sortByMinRate({q}))")
            s.eq("match", f"order of rates {a} and {b}, by target", "True", f"return (lambda r: r {'>' if c > 0 else '<' if c < 0 else '=='} 0)(mi.sortByMaxRate({q}))")


def main():
    ck = Check("C21", "Benchmark integer arithmetic rounds in favour of the pool", RULES, floor=30,
               assumptions=["amounts and curve parameters are non-negative integers", "the best-rate search of the reference matcher is not followed through its loops"])
    for rule, g in (("primitive", primitives), ("fallback", fallbacks), ("rate", rates), ("match", limits), ("match", equalize), ("match", matches), ("formula", formulas)):
        guarded(ck, rule, g.__name__, lambda: g(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
