from checks.fixed import *

RULES = {
    "primitive": "each primitive operation rejects a result below zero or above the word size",
    "word": "every sum, difference, product and quotient of the trade functions is checked against the word size, or is the double-width numerator of a checked quotient",
    "amount": "a trade amount is checked against the narrower size",
    "code": "the encoding of an order's rates has no silent overflow of its mantissa into its exponent",
}
x, y, z, A, Bq = [sym(n) for n in ("x", "y", "z", "A", "B_")]


def scene(vs, ck, pos=(), nonneg=None):
    f = ctx(ck, list(pos), [v for v in vs if v not in pos] if nonneg is None else list(nonneg))
    for v in vs:
        f.I.settype(v, ("int",))
    return f


def checked(ck, rule, name, f, o, value, top, low):
    """the result is known to lie within the word under the condition the call returns"""
    hi, lo = bounds(o.live)
    value = norm(value)
    C = f.canon()

    def known(d, v):
        if v in d:
            return d[v]
        for k in d:
            if same3(C, k, v, o.facts) is True:
                return d[k]
        return None
    h = known(hi, value)
    ck.decide(h == top if h is not None else False, rule, f"{name}: upper bound", f"the result is {'not checked' if h is None else 'checked against ' + str(h) + ' instead of ' + str(top)}", f.where(o))
    if low:
        l = known(lo, value)
        ck.decide(l is not None and l >= 0, rule, f"{name}: lower bound", "a result below zero is not rejected", f.where(o))


def primitives(ck):
    a, b, c = sym("a"), sym("b"), sym("c")
    f = scene((a, b, c), ck, (a, b, c))
    for name, args in (("add", (a, b)), ("sub", (a, b)), ("mul", (a, b)), ("mulDivF", (a, b, c)), ("mulDivC", (a, b, c))):
        o = f.func(IMPL + name, *args)
        if o.dead:
            ck.bad("primitive", name, "the call always fails", f.where(o))
            continue
        checked(ck, "primitive", name, f, o, o.value, MAX256, name == "sub")
        # nothing within the word is rejected
        v = o.value
        ok = AND(LE(const(0), v), LE(v, const(MAX256)))
        ck.decide(imp3(f.canon(), AND(o.facts, ok), o.live), "primitive", f"{name}: every result within the word is returned", f"rejected when not {brief(o.live, 160)}", f.where(o))
    # signed values
    v = sym("v")
    f = scene((v,), ck, (), ())
    o = f.func(IMPL + "uint128", v)
    checked(ck, "amount", "uint128", f, o, o.value, MAX128, True)
    f.expect("amount", "uint128: the value itself", o, v)
    for name, val, good in (("uint128", MAX128, True), ("uint128", MAX128 + 1, False), ("uint128", -1, False), ("uint128", 0, True)):
        o = f.func(IMPL + name, const(val))
        if good:
            f.expect("amount", f"{name} of {val}", o, const(val), strict=True)
        else:
            f.rejects("amount", f"{name} of {val}", o, none_ok=False)
    for name, args, good in (("add", (MAX256, 0), MAX256), ("add", (MAX256, 1), None), ("sub", (5, 5), 0), ("sub", (5, 6), None), ("mul", (2 ** 128, 2 ** 128), None), ("mul", (2 ** 128 + 1, 2 ** 128 - 1), MAX256),
                             ("mulDivF", (2 ** 200, 2 ** 200, 2 ** 144), None), ("mulDivF", (2 ** 200, 2 ** 200, 2 ** 144 + 1), 2 ** 400 // (2 ** 144 + 1)), ("mulDivC", (MAX256, MAX256, MAX256), MAX256),
                             ("mulDivC", (MAX256, 2, 1), None), ("mulDivC", (3, 5, 7), 3), ("mulDivF", (3, 5, 7), 2)):
        o = f.func(IMPL + name, *map(const, args))
        if good is not None:
            f.expect("primitive", f"{name}{args}", o, const(good), strict=True)
        else:
            f.rejects("primitive", f"{name}{args}", o, none_ok=False)


def words(ck):
    for flat in (False, True):
        f = scene((x, y, z, A, Bq), ck, (Bq, z) if flat else (A, Bq, z), (x, y))
        for name in ("tradeBySourceAmountFunc", "tradeByTargetAmountFunc"):
            o = f.func(IMPL + name, x, y, z, const(0) if flat else A, Bq)
            tag = name + (", one price" if flat else "")
            if o.dead:
                ck.bad("word", tag, "the call always fails", f.where(o))
                continue
            for g, v in leaves(o.value):
                g = norm(AND(o.live, g))
                if f.canon().unsat(AND(o.facts, g)):
                    continue
                flatg = [q for c in conj(g) for q in ([c] if c.op != "or" else [])]
                hi, lo = bounds(AND(*flatg))
                # alternatives of the condition that this case rules out
                for c in conj(g):
                    if c.op == "or":
                        live = [q for q in c.args if not f.canon().unsat(AND(o.facts, g, q))]
                        if len(live) == 1:
                            h, l = bounds(live[0])
                            hi.update({k: min(q, hi.get(k, q)) for k, q in h.items()})
                            lo.update({k: max(q, lo.get(k, q)) for k, q in l.items()})
                good = {t for t, m in hi.items() if m <= MAX256}
                bad, seen = [], set()
                try:
                    wide(norm(v), good, bad, seen)
                    ops = [t for t in seen if t.op in ("add", "sub", "mul", "floordiv", "ceildiv")]
                    subs = [t for t in seen if (t.op == "sub" or t.op == "add" and any(q.op == "neg" for q in t.args)) and lo.get(t, -1) < 0]
                except Unknown as e:
                    ck.undecided("word", f"{tag}, {brief(v, 60)}", str(e))
                    continue
                for t in ops:
                    ck.decide(t not in bad, "word", f"{tag}: {brief(t, 120)}", "exceeds the word unnoticed", f.where(o))
                for t in subs:
                    ck.bad("word", f"{tag}: {brief(t, 120)} below zero", "a difference below zero is not rejected", f.where(o))


def amounts(ck):
    from checks.c21 import book, uf
    f = scene((x, y, z, A, Bq), ck, (A, Bq), (x, y, z))
    f.st0 = f.state()
    d = book(f, f.st0, y=y, z=z, A=A, B=Bq)
    for n in ("tradeBySourceAmountFunc", "tradeByTargetAmountFunc", "decodeFloat"):
        uf(f, n, n)
    f.canon().ext_unknown = False
    for name in ("tradeBySourceAmount", "tradeByTargetAmount"):
        o = f.func(IMPL + name, x, d)
        for g, v in leaves(o.value):
            if v.op == "const":
                ck.decide(0 <= cval(v) <= MAX128, "amount", f"{name}: fallback within the amount type", f"is {v}", f.where(o))
                continue
            hi, lo = bounds(AND(o.live, g))
            ck.decide(hi.get(norm(v), MAX128 + 1) <= MAX128, "amount", f"{name}: result within the amount type", "larger results are returned", f.where(o))
            ck.decide(lo.get(norm(v), -1) >= 0, "amount", f"{name}: result not negative", "negative results are returned", f.where(o))


def codes(ck):
    s = Sc(ck, [])
    s.env = dict(ti=mk("mod", IMPL[:-1]))
    One = 2 ** 48
    for v in (0, 1, 5, One - 1, One, One + 1, 2 * One - 1, 2 * One, 3 * One, 2 ** 60 + 12345, 2 ** 90 - 1, 2 ** 95):
        e = (v // One).bit_length()
        m = v >> e
        s.eq("code", f"encodeFloat({v}): mantissa", str(m), f"ti.encodeFloat({v}) % {One}")
        s.eq("code", f"encodeFloat({v}): exponent", str(e), f"ti.encodeFloat({v}) // {One}")
        s.eq("code", f"decodeFloat(encodeFloat({v}))", str(m << e), f"ti.decodeFloat(ti.encodeFloat({v}))")


def main():
    ck = Check("C22", "Benchmark integer arithmetic never silently exceeds its word size", RULES, floor=25,
               assumptions=["operands are non-negative integers of the word size"])
    for rule, g in (("primitive", primitives), ("amount", amounts), ("code", codes), ("word", words)):
        guarded(ck, rule, g.__name__, lambda: g(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
