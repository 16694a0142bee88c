"""The routes of a match account for the request: which orders, how much of each, running totals
(abstract evaluation of the matchers over symbolic books to rational normal forms; swap pricing itself is C14)."""
import sys
from fractions import Fraction as F_

from checks.c14 import *
from vf.frame import Frames

RULES = {
    "route": "a route names the order it was priced on, and its amounts are that order's swap for the part of the request it takes",
    "split": "the parts taken by the routes add up to the request, best price first, and no order gives more than it has",
    "total": "running totals are the sums of the routes so far",
    "reject": "a request the offered orders cannot fill is rejected unless partial fills are allowed",
    "select": "the preselection offers no more orders than allowed, each once, and enough of them to fill the request when that is possible",
}
NEG = lambda t: arith("mul", const(-1), t)
ADD = lambda *ts: ts[0] if len(ts) == 1 else arith("add", ADD(*ts[:-1]), ts[-1])


class Rec:
    """collects the obligations of one scene"""

    def __init__(self, ck):
        self.ck, self.out, self.absorb, self.rules = ck, [], ck.absorb, ck.rules

    def decide(self, c, rule, name, detail="", where="", note=""):
        self.out.append((c, rule, name, detail, where))

    def bad(self, rule, name, detail, where=""):
        self.decide(False, rule, name, detail, where)

    def ok(self, rule, name, note=""):
        self.decide(True, rule, name)

    def undecided(self, rule, name, why):
        e = sys.exc_info()[1]
        self.decide(False if type(e).__name__ == "Dead" else None, rule, name, why)

    def any(self, v):
        return any(o[0] is v for o in self.out)


# witness points: values of the parameters at which a difference is looked for when none is decided in general (equality is never concluded from them)
POINTS = [{}, {}, {}]
_VALS = ([4, 6, 10, 2, 16, 3, 5, 1, 7, 12, 20, 9, 14, 11], [8, 2, 3, 4, 1, 5, 12, 6, 2, 3, 1, 7, 9, 10], [2, 24, 1, 2, 5, 4, 1, 20, 8, 2, 6, 3, 1, 2])


def value(t, pt):
    """the number a term of parameters stands for at a point, as a constant"""
    def go(x):
        if x.op == "const":
            return F_(cval(x)) if type(cval(x)) in (int, float) else None
        if x.op == "sym":
            return F_(pt[x]) if x in pt else None
        if x.op in ("add", "mul", "div", "neg"):
            y = [go(z) for z in x.args]
            if None in y:
                return None
            return {"add": lambda: y[0] + y[1], "mul": lambda: y[0] * y[1], "div": lambda: y[0] / y[1], "neg": lambda: -y[0]}[x.op]()
        return None
    v = go(t)
    if v is None:
        return subst(t, {k: const(w) for k, w in pt.items()})
    return const(int(v)) if v.denominator == 1 else const(float(v))


class Scene:
    """obligations decided for all parameters, and looked at in single points where that fails"""

    def settle(self, ck, once):
        rec = Rec(ck)
        once(rec, None)
        if rec.any(None) and not rec.any(False):
            for pt in points(self.pos):
                r2 = Rec(ck)
                try:
                    once(r2, pt)
                except (Undecided, Budget, LookupError, ZeroDivisionError):
                    continue
                if r2.any(False):
                    names = {o[2] for o in r2.out if o[0] is False}
                    rec.out = [o for o in rec.out if o[0] is not None or o[2] not in names] + \
                        [(False, o[1], o[2], f"{o[3]} (at {', '.join(f'{k.args[0]}={w}' for k, w in pt.items())})", o[4]) for o in r2.out if o[0] is False]
                    break
        for o in rec.out:
            ck.decide(*o)


def points(pos):
    for vals in _VALS:
        yield {k: vals[i % len(vals)] for i, k in enumerate(pos)}


class Book(Scene):
    """orders with opaque curves; `prices` lists what the swap functions answer: {(function, order, amount[, subset]): value}"""

    def __init__(self, ck, cls, ys, prices, pos, mid=()):
        self.ck, self.pos = ck, list(pos)
        self.make = lambda rec, pt: Books(rec, cls, ys, prices, pos, pt, mid)

    def routes(self, name, want, method, *args, **kw):
        """the call answers exactly these routes: dicts of fields"""
        self.settle(self.ck, lambda rec, pt: self.make(rec, pt).routes(name, want, method, *args, **kw))

    def rejects(self, name, method, *args, **kw):
        self.settle(self.ck, lambda rec, pt: self.make(rec, pt).rejects(name, method, *args, **kw))


class Books:
    def __init__(self, ck, cls, ys, prices, pos, pt=None, mid=()):
        self.ck, self.pt = ck, pt
        num = self.num = (lambda t: t) if pt is None else (lambda t: value(t, pt))
        self.f = f = ctx(ck, list(pos) if pt is None else [sym("unit")], (), (), approx=("round",))
        self.prices = {tuple(num(x) if isinstance(x, type(NONE)) else x for x in k): num(v) for k, v in prices.items()}
        if len(self.prices) < len(prices):
            raise LookupError("amounts coincide")
        keys = list(self.prices)
        for i, k in enumerate(keys if pt is not None else ()):
            for l in keys[:i]:
                if k[:2] == l[:2] and k[3:] == l[3:] and cval(k[2]) == cval(l[2]) and self.prices[k] is not self.prices[l]:
                    raise LookupError("amounts coincide")
        self.missed = []
        Frames(f.I)
        f.canon().extra_unknown |= {"sorted", "sum", "each", "elem", "item", "slice", "mcall"}       # everything in a scene is listed
        for m in ("amt_by_target", "amt_by_src", "dxdy"):
            for c in {cls, "ExactBase", "ExactRouterX0Y0N"} if cls != "FastRouter" else {cls}:
                f.I.cfg.overrides[f"{c}.{m}"] = self.answer(m)
        # whatever else is asked of a curve is not known to the analysis
        self.orders = [f.obj(f"O{i}", "Order", y=num(y), _y=num(y), **{a: mk("exc", f"{a}{i}") for a in ("S", "B", "y_int", "p_high", "p_low", "D", "_C")},
                             **({"x0": mul(num(mid[i]), const(2)), "y0": const(2)} if mid else {})) for i, y in enumerate(ys)]
        self.r = build(f, {"FastRouter": FAST, "ExactRouterX0Y0N": EXACT, "AlphaRouter": ALPHA}[cls], self.orders)

    def answer(self, m):
        def fn(I, f, args, kwargs, st, node):
            a = list(args)[1:]
            names = ("subject", "dy") if m == "dxdy" else ("subject", "dx", "position_subset")
            kw = {**dict(zip(names, a)), **kwargs}
            n, d = kw.get("subject"), kw.get("dy" if m == "dxdy" else "dx")
            if n is None or d is None or n.op != "const":
                return None
            sub = kw.get("position_subset")
            sub = None if sub is None or sub is NONE else I.content(sub, st)
            sub = None if sub is None else tuple(cval(s.args[0]) if s.op == "seg" and s.args[0].op == "const" else "?" for s in sub.args)
            C = self.f.canon()
            for k, v in self.prices.items():
                if k[0] == m and k[1] == cval(n) and (k[3] if len(k) > 3 else None) == sub and C.same(I.freeze(d, st), k[2]):
                    return v
            self.missed.append((m, cval(n), d, sub))
            return mk("exc", f"{m}{cval(n)}", I.freeze(d, st))
        return fn

    def arg(self, x):
        if isinstance(x, tuple):
            o = self.f.I.new_obj("list")
            self.f.st0.heap[(o, "c")] = mk("list", *[mk("seg", const(n), TRUE, mk("loops")) for n in x])
            return o
        return self.num(x)

    def routes(self, name, want, method, *args, **kw):
        ck, f = self.ck, self.f
        try:
            o = raw(f, self.r, method, *[self.arg(x) for x in args], **{k: self.arg(x) for k, x in kw.items()})
        except (Undecided, Budget) as e:
            return ck.undecided("route", name, str(e))
        if o.dead:
            return ck.bad("route", name, "the call always fails", f.where(o))
        g = AND(o.facts, o.live)
        C = f.canon()
        for e in o.effects:
            if e.kind in ("badcall", "noattr", "noname") and imp3(C, g, e.guard) is True:
                what = e.value.args[1] if e.value is not None and e.value.op == "const" else f"{e.kind} {e.key}"
                return ck.bad("route", name, f"the call always fails: {what}", e.where)
        lv = imp3(C, AND(*f.facts), o.live)
        if lv is not True:
            return ck.decide(lv, "route", name, "the match fails when not " + brief(o.live, 200), f.where(o))
        c = f.I.content(o.raw, o.st)
        if o.raw.op == "const":
            return ck.bad("route", name, f"answers {f.nice(o.raw)} instead of the routes", f.where(o))
        if c is None or not all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in c.args):
            return ck.undecided("route", name, f"the routes are not a list of known length: {brief(f.I.freeze(o.raw, o.st), 120)}")
        if len(c.args) != len(want):
            return ck.decide(None if self.missed else False, "split", name, f"{len(c.args)} routes instead of {len(want)}", f.where(o))
        for i, (s, w) in enumerate(zip(c.args, want)):
            for fld, val in w.items():
                rule = "total" if fld.startswith("total") else "route"
                try:
                    got = f.I.freeze(f.I.getattr(s.args[0], fld, o.st, None), o.st)
                    v = f.same(got, self.num(val), g)
                except (Dead, Undecided, Budget) as e:
                    ck.undecided(rule, f"{name}: route {i + 1} {fld}", str(e))
                    continue
                ck.decide(v, rule, f"{name}: route {i + 1} {fld}", f"is {f.nice(C.prune(got, g))} instead of {f.nice(self.num(val))}", f.where(o))

    def rejects(self, name, method, *args, **kw):
        f = self.f
        try:
            f.rejects("reject", name, f.call(self.r, method, *[self.arg(x) for x in args], **{k: self.arg(x) for k, x in kw.items()}), none_ok=False)
        except (Undecided, Budget) as e:
            self.ck.undecided("reject", name, str(e))


def wants(rows, neg_last=False, **extra):
    """route rows (index, input, output) with their running totals"""
    out, ti, to = [], None, None
    for n, i, o in rows:
        ti, to = i if ti is None else ADD(ti, i), o if to is None else ADD(to, o)
        out.append({"index": const(n), "input": i, "output": o, "total_input": ti, "total_output": to, **extra})
    if neg_last and out:
        out[-1]["total_output"] = NEG(out[-1]["total_output"])
    return out


i0, r, u, v, w, g, e, p, q, t = [sym(x) for x in ("i0", "r", "u", "v", "w", "g", "e", "p", "q", "t")]
mul = lambda a, b: arith("mul", a, b)


BY_S, BY_T = {"match_method": const("by_src")}, {"match_method": const("by_target")}


def fast_source(ck):
    # two orders; the better one (price v+w against v) is exhausted by part of the amount
    for swap in (False, True):
        a, b = (1, 0) if swap else (0, 1)
        x = ADD(i0, r)
        o0 = mul(i0, ADD(v, w))
        qx = mul(x, v)
        pr = {("amt_by_target", a, x): ADD(o0, e), ("amt_by_src", a, o0): i0,
              ("amt_by_target", b, x): qx, ("amt_by_src", b, qx): x,
              ("amt_by_target", b, r): p, ("amt_by_src", b, p): r}
        ys = {a: o0, b: ADD(qx, p, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, w, e, p, g])
        bk.routes(f"fast, by source, better order exhausted{' (listed last)' if swap else ''}", wants([(a, i0, o0), (b, r, p)], True, **BY_S), "match_by_src", x)
        # the better one can take everything
        o0 = mul(x, ADD(v, w))
        pr = {("amt_by_target", a, x): o0, ("amt_by_src", a, o0): x, ("amt_by_target", b, x): qx, ("amt_by_src", b, qx): x}
        ys = {a: ADD(o0, g), b: ADD(qx, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, w, g])
        bk.routes(f"fast, by source, better order suffices{' (listed last)' if swap else ''}", wants([(a, x, o0)], True, **BY_S), "match_by_src", x)
        bk.routes(f"fast, by source, sign of the amount{' (listed last)' if swap else ''}", wants([(a, x, o0)], True, **BY_S), "match_by_src", NEG(x))


def fast_target(ck):
    for swap in (False, True):
        a, b = (1, 0) if swap else (0, 1)
        s = " (listed last)" if swap else ""
        x = ADD(i0, r)                      # amount of the target token asked for
        # order a holds i0 < x and costs v per unit, order b holds enough and costs v + w
        ca, cb, cr = mul(i0, v), mul(x, ADD(v, w)), p
        pr = {("amt_by_src", a, i0): ca, ("amt_by_src", b, x): cb, ("amt_by_src", b, r): cr}
        ys = {a: i0, b: ADD(x, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, w, p, g])
        bk.routes(f"fast, by target, better order exhausted{s}", wants([(a, i0, ca), (b, r, cr)], True, **BY_T), "match_by_target", x)
        ca = mul(x, v)
        pr = {("amt_by_src", a, x): ca, ("amt_by_src", b, x): cb}
        ys = {a: ADD(x, g), b: ADD(x, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, w, g])
        bk.routes(f"fast, by target, better order suffices{s}", wants([(a, x, ca)], True, **BY_T), "match_by_target", x)
        bk.routes(f"fast, by target, sign of the amount{s}", wants([(a, x, ca)], True, **BY_T), "match_by_target", NEG(x))
        # same price: the order giving more comes first
        bk = Book(ck, "FastRouter", [ADD(x, g)], {("amt_by_src", 0, x): ca}, [i0, r, v, g])
        bk.routes(f"fast, by target, one order{s}", wants([(0, x, ca)], True, **BY_T), "match_by_target", x)


def fast_ties(ck):
    for swap in (False, True):
        a, b = (1, 0) if swap else (0, 1)
        s = " (listed last)" if swap else ""
        for more in (True, False):
            # the better order gives more / less in total than the other one would
            if more:
                r_ = r
                u_ = arith("div", ADD(mul(i0, v), mul(r, v), w), i0)         # i0*u = (i0+r)*v + w
                pos = [i0, r, v, w, e, p, g]
            else:
                r_ = arith("div", ADD(mul(i0, w), t), v)                      # r*v = i0*w + t
                u_ = ADD(v, w)
                pos = [i0, v, w, t, e, p, g]
            x = ADD(i0, r_)
            o0, qx = mul(i0, u_), mul(x, v)
            pr = {("amt_by_target", a, x): ADD(o0, e), ("amt_by_src", a, o0): i0, ("amt_by_target", b, x): qx, ("amt_by_src", b, qx): x,
                  ("amt_by_target", b, r_): p, ("amt_by_src", b, p): r_}
            ys = {a: o0, b: ADD(qx, p, g)}
            bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, pos)
            bk.routes(f"fast, by source, better order exhausted, giving {'more' if more else 'less'}{s}", wants([(a, i0, o0), (b, r_, p)], True, **BY_S), "match_by_src", x)
            ca, cb = mul(i0, v), mul(ADD(i0, r), ADD(v, w))
            pr = {("amt_by_src", a, i0): ca, ("amt_by_src", b, ADD(i0, r)): cb, ("amt_by_src", b, r): p}
        # equal prices: the order giving more goes first
        x = ADD(i0, r)
        o0, qx = mul(i0, v), mul(x, v)
        pr = {("amt_by_target", a, x): ADD(o0, e), ("amt_by_src", a, o0): i0, ("amt_by_target", b, x): qx, ("amt_by_src", b, qx): x, ("amt_by_target", b, r): p, ("amt_by_src", b, p): r}
        ys = {a: o0, b: ADD(qx, p, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, e, p, g])
        bk.routes(f"fast, by source, equal prices{s}", wants([(b, x, qx)], True, **BY_S), "match_by_src", x)
        # nothing is left for a third order
        x = ADD(i0, r)
        c0, c1, c2 = mul(i0, v), mul(x, ADD(v, w)), mul(x, ADD(v, w, t))
        third = 2
        pr = {("amt_by_src", a, i0): c0, ("amt_by_src", b, x): c1, ("amt_by_src", b, r): p, ("amt_by_src", third, x): c2, ("amt_by_src", third, r): q}
        ys = {a: i0, b: ADD(x, g), third: ADD(x, g)}
        bk = Book(ck, "FastRouter", [ys[0], ys[1], ys[2]], pr, [i0, r, v, w, t, p, q, g])
        bk.routes(f"fast, by target, nothing left for the last order{s}", wants([(a, i0, c0), (b, r, p)], True, **BY_T), "match_by_target", x)
        c0 = mul(x, v)
        pr = {("amt_by_src", a, x): c0, ("amt_by_src", b, x): c1}
        bk = Book(ck, "FastRouter", [x, x], pr, [i0, r, v, w])
        bk.routes(f"fast, by target, exactly what the better order has{s}", wants([(a, x, c0)], True, **BY_T), "match_by_target", x)
        # an order that would ask nothing for what it gives is not used
        pr = {("amt_by_src", a, x): const(0), ("amt_by_src", a, i0): const(0), ("amt_by_src", b, x): c1}
        for nm, ya_ in (("all", ADD(x, g)), ("part", i0)):
            ys = {a: ya_, b: ADD(x, g)}
            bk = Book(ck, "FastRouter", [ys[0], ys[1]], pr, [i0, r, v, w, g])
            bk.routes(f"fast, by target, order giving {nm} for nothing{s}", wants([(b, x, c1)], True, **BY_T), "match_by_target", x)


def fast_more(ck):
    # an empty order is passed over; three orders in price order 2, 0, 1
    x = ADD(i0, r)
    pr = {("amt_by_target", 0, x): p, ("amt_by_src", 0, const(0)): const(0), ("amt_by_target", 1, x): q, ("amt_by_src", 1, q): x}
    bk = Book(ck, "FastRouter", [const(0), ADD(q, g)], pr, [i0, r, p, q, g])
    bk.routes("fast, by source, empty order listed first", wants([(1, x, q)], True, **BY_S), "match_by_src", x)
    pr = {("amt_by_src", 0, const(0)): const(0), ("amt_by_src", 1, x): q}
    bk = Book(ck, "FastRouter", [const(0), ADD(x, g)], pr, [i0, r, q, g])
    bk.routes("fast, by target, empty order listed first", wants([(1, x, q)], True, **BY_T), "match_by_target", x)
    i1, w2 = sym("i1"), sym("w2")
    x = ADD(i0, i1, r)
    c2, c0, c1 = mul(i0, v), mul(i1, ADD(v, w)), mul(x, ADD(v, w, w2))
    pr = {("amt_by_src", 2, i0): c2, ("amt_by_src", 0, i1): c0, ("amt_by_src", 1, x): c1, ("amt_by_src", 1, r): p}
    bk = Book(ck, "FastRouter", [i1, ADD(x, g), i0], pr, [i0, i1, r, v, w, w2, p, g])
    bk.routes("fast, by target, three orders", wants([(2, i0, c2), (0, i1, c0), (1, r, p)], True, **BY_T), "match_by_target", x)
    o2, o0, q1 = mul(i0, ADD(v, w, w2)), mul(i1, ADD(v, w)), mul(x, v)
    pr = {("amt_by_target", 2, x): ADD(o2, e), ("amt_by_src", 2, o2): i0, ("amt_by_target", 0, x): ADD(o0, e), ("amt_by_src", 0, o0): i1,
          ("amt_by_target", 1, x): q1, ("amt_by_src", 1, q1): x, ("amt_by_target", 1, r): p, ("amt_by_src", 1, p): r}
    bk = Book(ck, "FastRouter", [o0, ADD(q1, p, g), o2], pr, [i0, i1, r, v, w, w2, e, p, g])
    bk.routes("fast, by source, three orders", wants([(2, i0, o2), (0, i1, o0), (1, r, p)], True, **BY_S), "match_by_src", x)


a_, b_, c_, ya, yb, ia, ib = [sym(n) for n in ("a", "b", "c", "ya", "yb", "ia", "ib")]


def exact_target(ck):
    X = "ExactRouterX0Y0N"
    tgt = {"match_method": const("by_target")}
    # both orders take a part
    x = NEG(ADD(a_, b_))
    pr = {("amt_by_target", 0, x, (0, 1)): NEG(a_), ("amt_by_target", 1, x, (0, 1)): NEG(b_), ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk = Book(ck, X, [ADD(a_, ya), ADD(b_, yb)], pr, [a_, b_, ya, yb, ia, ib])
    bk.routes("exact, by target, shared", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **tgt), "match_by_target", x)
    bk = Book(ck, X, [ADD(a_, ya), ADD(b_, yb)], {}, [a_, b_, c_, ya, yb])
    bk.rejects("exact, by target, more than all orders hold", "match_by_target", NEG(ADD(a_, b_, ya, yb, c_)))
    big = NEG(ADD(a_, b_, c_))
    pr2 = {("amt_by_target", 0, big, (0, 1)): NEG(ADD(a_, e)), ("amt_by_target", 1, big, (0, 1)): NEG(ADD(b_, e)), ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk2 = Book(ck, X, [a_, b_], pr2, [a_, b_, c_, e, ia, ib])
    bk2.routes("exact, by target, more than all orders hold, partial fill", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **tgt), "match_by_target", big, support_partial=TRUE)
    # parts that do not make up the request
    for nm, part in (("half", 2), ("nine tenths", F_(10, 9))):
        pt = lambda z: NEG(mul(z, const(9))) if part != 2 else NEG(z)
        y10 = NEG(ADD(*[mul(z, const(10)) for z in (a_, b_)])) if part != 2 else NEG(mul(const(2), ADD(a_, b_)))
        pr2 = {("amt_by_target", 0, y10, (0, 1)): pt(a_), ("amt_by_target", 1, y10, (0, 1)): pt(b_), ("dxdy", 0, pt(a_)): ia, ("dxdy", 1, pt(b_)): ib}
        bk2 = Book(ck, X, [ADD(mul(a_, const(10)), ya), ADD(mul(b_, const(10)), yb)], pr2, [a_, b_, ya, yb, ia, ib])
        bk2.rejects(f"exact, by target, routes make up {nm} of the request", "match_by_target", y10)
    # three orders: two are exhausted, one after the other
    for perm in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        A, B_, C_ = perm
        x = NEG(ADD(a_, b_, c_))
        s12 = tuple(sorted((B_, C_)))
        pr2 = {("amt_by_target", A, x, (0, 1, 2)): NEG(ADD(a_, e)), ("amt_by_target", B_, x, (0, 1, 2)): NEG(p), ("amt_by_target", C_, x, (0, 1, 2)): NEG(q),
               ("amt_by_target", B_, NEG(ADD(b_, c_)), s12): NEG(ADD(b_, p, g)), ("amt_by_target", C_, NEG(ADD(b_, c_)), s12): NEG(t),
               ("amt_by_target", C_, NEG(c_), (C_,)): NEG(c_), ("dxdy", A, NEG(a_)): ia, ("dxdy", B_, NEG(ADD(b_, p))): ib, ("dxdy", C_, NEG(c_)): sym("ic")}
        x_ = NEG(ADD(a_, b_, p, c_))
        pr2 = {(k[0], k[1], x_ if k[2] is x else NEG(ADD(b_, p, c_)) if k[2] is NEG(ADD(b_, c_)) else k[2], *k[3:]): v for k, v in pr2.items()}
        hold = {A: a_, B_: ADD(b_, p), C_: ADD(c_, q, t)}
        bk2 = Book(ck, X, [hold[n] for n in range(3)], pr2, [a_, b_, c_, e, p, q, g, t, ia, ib, sym("ic")])
        row = {A: (A, ia, NEG(a_)), B_: (B_, ib, NEG(ADD(b_, p))), C_: (C_, sym("ic"), NEG(c_))}
        bk2.routes(f"exact, by target, three orders, {perm}", wants([row[n] for n in perm], **tgt), "match_by_target", x_)
    x = NEG(ADD(a_, b_))
    # one order is asked for more than it has: it gives everything, the other takes the rest
    for k in (0, 1):
        j = 1 - k
        x = NEG(ADD(a_, b_))
        first = {k: NEG(ADD(a_, e)), j: SUBT(e, b_)}
        pr = {("amt_by_target", k, x, (0, 1)): first[k], ("amt_by_target", j, x, (0, 1)): NEG(p),
              ("amt_by_target", j, NEG(b_), (j,)): NEG(b_), ("dxdy", k, NEG(a_)): ia, ("dxdy", j, NEG(b_)): ib}
        ys = {k: a_, j: ADD(b_, p, yb)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [a_, b_, e, p, yb, ia, ib])
        bk.routes(f"exact, by target, order {k} exhausted", wants([(k, ia, NEG(a_)), (j, ib, NEG(b_))], **tgt), "match_by_target", x)
        # an order whose price is too high for the amount is left out
        pr = {("amt_by_target", k, x, (0, 1)): p, ("amt_by_target", j, x, (0, 1)): NEG(ADD(a_, b_, p)), ("amt_by_target", j, x, (j,)): x, ("dxdy", j, x): ib}
        ys = {k: yb, j: ADD(a_, b_, p, ya)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [a_, b_, p, ya, yb, ib])
        bk.routes(f"exact, by target, order {k} too expensive", wants([(j, ib, x)], **tgt), "match_by_target", x)
        # an empty order is never asked
        pr = {("amt_by_target", j, x, (0, 1)): x, ("amt_by_target", j, x, (j,)): x, ("amt_by_target", k, x, (0, 1)): const(0), ("dxdy", j, x): ib}
        ys = {k: const(0), j: ADD(a_, b_, ya)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [a_, b_, ya, ib])
        bk.routes(f"exact, by target, order {k} empty", wants([(j, ib, x)], **tgt), "match_by_target", x)
        # only the preselected orders take part
        pr = {("amt_by_target", j, x, (j,)): x, ("dxdy", j, x): ib}
        ys = {k: yb, j: ADD(a_, b_, ya)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [a_, b_, ya, yb, ib])
        bk.routes(f"exact, by target, only order {j} offered", wants([(j, ib, x)], **tgt), "match", x, is_by_target=TRUE, use_positions_matchlevel=(j,))
        bk = Book(ck, X, [ys[0], ys[1]], {}, [a_, b_, c_, ya, yb])
        bk.rejects(f"exact, by target, only order {j} offered, more than it holds", "match", NEG(ADD(a_, b_, ya, c_)), is_by_target=TRUE, use_positions_matchlevel=(j,))


SUBT = lambda x, y: ADD(x, NEG(y))


def exact_source(ck):
    X = "ExactRouterX0Y0N"
    src = {"match_method": const("by_src")}
    x = ADD(ia, ib)
    pr = {("amt_by_src", 0, x, (0, 1)): NEG(a_), ("amt_by_src", 1, x, (0, 1)): NEG(b_), ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk = Book(ck, X, [ADD(a_, ya), ADD(b_, yb)], pr, [a_, b_, ya, yb, ia, ib])
    bk.routes("exact, by source, shared", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **src), "match_by_src", x)
    for k in (0, 1):
        j = 1 - k
        pr = {("amt_by_src", k, x, (0, 1)): NEG(ADD(a_, e)), ("amt_by_src", j, x, (0, 1)): NEG(p), ("dxdy", k, NEG(a_)): ia,
              ("amt_by_src", j, ib, (j,)): NEG(b_), ("dxdy", j, NEG(b_)): ib}
        ys = {k: a_, j: ADD(b_, p, yb)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [a_, b_, e, p, yb, ia, ib])
        bk.routes(f"exact, by source, order {k} exhausted", wants([(k, ia, NEG(a_)), (j, ib, NEG(b_))], **src), "match_by_src", x)
        pr = {("amt_by_src", k, x, (0, 1)): p, ("amt_by_src", j, x, (0, 1)): NEG(ADD(b_, p)), ("amt_by_src", j, x, (j,)): NEG(b_), ("dxdy", j, NEG(b_)): x}
        ys = {k: yb, j: ADD(b_, p, ya)}
        bk = Book(ck, X, [ys[0], ys[1]], pr, [b_, p, ya, yb, ia, ib])
        bk.routes(f"exact, by source, order {k} too expensive", wants([(j, x, NEG(b_))], **src), "match_by_src", x)
        # everything on offer buys less than asked for
    pr = {("amt_by_src", 0, ADD(x, c_), (0, 1)): NEG(ADD(a_, e)), ("amt_by_src", 1, ADD(x, c_), (0, 1)): NEG(ADD(b_, e)),
          ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk = Book(ck, X, [a_, b_], pr, [a_, b_, e, ia, ib, c_])
    bk.rejects("exact, by source, more than all orders take", "match_by_src", ADD(x, c_))
    bk.routes("exact, by source, more than all orders take, partial fill", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **src), "match_by_src", ADD(x, c_), support_partial=TRUE)


def alpha(ck):
    X = "AlphaRouter"
    tgt, src = {"match_method": const("by_target")}, {"match_method": const("by_src")}
    h = sym("h")
    # by target, two of three orders allowed; the best ones hold enough
    x, x2 = NEG(ADD(a_, b_)), ADD(ia, ib)
    rank = [NEG(h), NEG(ADD(h, p)), NEG(ADD(h, p, q))]                      # what the orders would ask, best first
    for perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        lo, hi = sorted(perm[:2])
        pr = {("amt_by_target", n, x): v for n, v in zip(perm, rank)}
        pr.update({("amt_by_target", lo, x, (lo, hi)): NEG(a_), ("amt_by_target", hi, x, (lo, hi)): NEG(b_), ("dxdy", lo, NEG(a_)): ia, ("dxdy", hi, NEG(b_)): ib})
        ys = {lo: ADD(a_, ya), hi: ADD(b_, a_, ya, yb), perm[2]: ADD(a_, a_, ya, ya, b_, yb, c_)}
        bk = Book(ck, X, [ys[0], ys[1], ys[2]], pr, [a_, b_, c_, ya, yb, ia, ib, h, p, q])
        two = [(lo, ia, NEG(a_)), (hi, ib, NEG(b_))]
        bk.routes(f"alpha, by target, best two of three, {perm}", wants(two, **tgt), "match_by_target", x, threshold_orders=const(2))
        # by source: the orders would give h+p+q, h+p, h and hold more than that
        best = [ADD(h, p, q), ADD(h, p), h]
        pr = {("amt_by_src", n, x2): v for n, v in zip(perm, best)}
        pr.update({("amt_by_src", lo, x2, (lo, hi)): NEG(a_), ("amt_by_src", hi, x2, (lo, hi)): NEG(b_), ("dxdy", lo, NEG(a_)): ia, ("dxdy", hi, NEG(b_)): ib})
        ys = {lo: ADD(a_, ya, h, p, q), hi: ADD(b_, yb, h, p, q), perm[2]: ADD(h, p, q, c_)}
        bk = Book(ck, X, [ys[0], ys[1], ys[2]], pr, [a_, b_, c_, ya, yb, ia, ib, h, p, q], mid=[g, g, g])
        bk.routes(f"alpha, by source, best two of three, {perm}", wants(two, **src), "match_by_src", x2, threshold_orders=const(2))
        # the best one holds less than it would give: what an order can take is then valued at its middle price, and the first two fall short
        v0, v1, v2 = ADD(ia, ib), ADD(ia, ib, p), ADD(ia, ib, p, q)
        x3, lo, hi = ADD(v1, v2), *sorted(perm[1:])
        hold, val = dict(zip(perm, (a_, ADD(a_, ya), ADD(a_, yb)))), dict(zip(perm, (v0, v1, v2)))
        half = {n: NEG(arith("div", hold[n], const(2))) for n in perm}
        pr = {("amt_by_src", n, x3): ADD(a_, ya, yb, *[g] * (3 - k)) for k, n in enumerate(perm)}
        pr.update({("amt_by_src", n, x3, (lo, hi)): half[n] for n in (lo, hi)})
        pr.update({("dxdy", n, half[n]): val[n] for n in (lo, hi)})
        bk = Book(ck, X, [hold[n] for n in range(3)], pr, [a_, ya, yb, ia, ib, p, q, g], mid=[arith("div", val[n], hold[n]) for n in range(3)])
        bk.routes(f"alpha, by source, the best order is too small, {perm}", wants([(n, val[n], half[n]) for n in (lo, hi)], **src), "match_by_src", x3, threshold_orders=const(2))
    # the best two hold too little, the third replaces the smaller
    for perm in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
        lo, hi = sorted(perm[1:])
        part = lambda m, n: arith("div", mul(const(m), ADD(a_, b_)), const(n))
        hold = dict(zip(perm, (part(1, 4), part(1, 2), ADD(a_, b_, yb))))
        give, ask = {perm[1]: NEG(part(1, 3)), perm[2]: NEG(part(2, 3))}, {perm[1]: ia, perm[2]: ib}
        pr = {("amt_by_target", n, x): v for n, v in zip(perm, rank)}
        pr.update({("amt_by_target", n, x, (lo, hi)): give[n] for n in (lo, hi)})
        pr.update({("dxdy", n, give[n]): ask[n] for n in (lo, hi)})
        bk = Book(ck, X, [hold[n] for n in range(3)], pr, [a_, b_, yb, ia, ib, h, p, q])
        bk.routes(f"alpha, by target, a deeper order replaces the smallest, {perm}", wants([(n, ask[n], give[n]) for n in (lo, hi)], **tgt), "match_by_target", x, threshold_orders=const(2))
    # no limit given, and both orders wanted
    pr = {("amt_by_target", 0, x): NEG(h), ("amt_by_target", 1, x): NEG(ADD(h, p)), ("amt_by_target", 0, x, (0, 1)): NEG(a_), ("amt_by_target", 1, x, (0, 1)): NEG(b_),
          ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk = Book(ck, X, [ADD(a_, ya), ADD(b_, a_, ya, yb)], pr, [a_, b_, ya, yb, ia, ib, h, p])
    bk.routes("alpha, by target, number of orders not given", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **tgt), "match_by_target", x)
    big = NEG(ADD(a_, b_, a_, ya, yb, ya, c_))
    pr = {("amt_by_target", 0, big): NEG(h), ("amt_by_target", 1, big): NEG(ADD(h, p))}
    bk = Book(ck, X, [ADD(a_, ya), ADD(b_, a_, ya, yb)], pr, [a_, b_, c_, ya, yb, h, p])
    bk.rejects("alpha, by target, more than all orders hold", "match_by_target", big)
    bk.rejects("alpha, by target, more than the best order holds, one allowed", "match_by_target", big, threshold_orders=const(1))
    pr = {("amt_by_src", 0, x2): h, ("amt_by_src", 1, x2): ADD(h, p), ("amt_by_src", 0, x2, (0, 1)): NEG(a_), ("amt_by_src", 1, x2, (0, 1)): NEG(b_),
          ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(b_)): ib}
    bk = Book(ck, X, [ADD(a_, ya, h), ADD(b_, h, p, yb)], pr, [a_, b_, ya, yb, ia, ib, h, p], mid=[g, g])
    bk.routes("alpha, by source, number of orders not given", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **src), "match_by_src", x2)
    # partial fills: the request is cut to (just below) what can be had
    tiny = arith("div", const(1), const(10 ** 10))
    o1 = ADD(a_, tiny, b_)
    cut, big = NEG(ADD(a_, o1)), NEG(ADD(a_, a_, b_, c_, const(1)))
    pr = {("amt_by_target", 0, big): NEG(h), ("amt_by_target", 1, big): NEG(ADD(h, p)), ("amt_by_target", 0, cut, (0, 1)): NEG(a_), ("amt_by_target", 1, cut, (0, 1)): NEG(o1),
          ("dxdy", 0, NEG(a_)): ia, ("dxdy", 1, NEG(o1)): ib}
    bk2 = Book(ck, X, [ADD(a_, tiny), o1], pr, [a_, b_, c_, ia, ib, h, p])
    bk2.routes("alpha, by target, partial fill", wants([(0, ia, NEG(a_)), (1, ib, NEG(o1))], **tgt), "match_by_target", big, support_partial=TRUE)
    bk.routes("alpha, by source, partial fill allowed but not needed", wants([(0, ia, NEG(a_)), (1, ib, NEG(b_))], **src), "match_by_src", x2, support_partial=TRUE)


def select(ck):
    """numbers in ranked order, an amount to reach and how many may be taken"""
    t2 = sym("t2")
    cases = [
        # name, numbers, threshold, at most, selected
        ("the first two suffice", (ADD(a_, b_, c_), ADD(b_, c_), c_), ADD(a_, b_, c_, c_), 2, (0, 1), [a_, b_, c_]),
        ("exactly the first two", (ADD(a_, b_), b_), ADD(a_, b_, b_), 2, (0, 1), [a_, b_]),
        ("the smallest is replaced by a later one", (p, ADD(p, t, t2), ADD(p, t, t2, u)), ADD(p, p, t, t2, t), 2, (1, 2), [p, t, t2, u]),
        ("the smallest, listed second, is replaced", (ADD(p, t, t2), p, ADD(p, t, t2, u)), ADD(p, p, t, t2, t), 2, (0, 2), [p, t, t2, u]),
        ("a smaller later one is not taken", (ADD(p, v, q), ADD(p, v), p, ADD(p, q, v, w)), ADD(p, v, q, p, q, v, w), 2, (0, 3), [p, q, v, w]),
        ("not enough anywhere", (ADD(p, q, v), p, ADD(p, q)), ADD(p, p, p, q, q, v, v), 2, (0, 2), [p, q, v]),
        ("fewer orders than allowed", (ADD(p, q), p), ADD(p, p), 5, (0, 1), [p, q]),
        ("fewer orders than allowed, not enough", (ADD(p, q), p), ADD(p, p, q, q), 5, (0, 1), [p, q]),
        ("only one allowed", (p, ADD(p, t, u)), ADD(p, t), 1, (1,), [p, t, u]),
    ]
    for name, nums, thr, n, want, pos in cases:
        sc = Scene()
        sc.pos = pos
        sc.settle(ck, lambda rec, pt: selected(rec, f"alpha, preselection, {name}", nums, thr, n, want, pos, pt))


def selected(ck, nm, nums, thr, n, want, pos, pt):
    num = (lambda t: t) if pt is None else (lambda t: value(t, pt))
    f = ctx(ck, pos if pt is None else [sym("unit")])
    st = f.state()
    f.st0 = st
    l = f.I.new_obj("list")
    st.heap[(l, "c")] = mk("list", *[mk("seg", num(x), TRUE, mk("loops")) for x in nums])
    try:
        o = raw(f, f.clsref("AlphaRouter"), "gen_one_order_selector", l, num(thr), const(n))
    except (Undecided, Budget) as ex:
        return ck.undecided("select", nm, str(ex))
    if o.dead:
        return ck.bad("select", nm, "the call always fails", f.where(o))
    if o.raw.op == "const":
        return ck.bad("select", nm, f"answers {f.nice(o.raw)} instead of the selection", f.where(o))
    c = f.I.content(o.raw, o.st)
    got = [s.args[0] for s in c.args if s.op == "seg" and s.args[1] is TRUE and not s.args[2].args and s.args[0].op == "const"] if c is not None else None
    if got is None or len(got) != len(c.args):
        return ck.undecided("select", nm, f"not a list of known numbers: {brief(f.I.freeze(o.raw, o.st), 120)}")
    got = [cval(x) for x in got]
    ck.decide(sorted(got) == sorted(want), "select", nm, f"selects the orders ranked {got} instead of {list(want)}", f.where(o))


def main():
    ck = Check("C33", "A match's routes account for the request", RULES, floor=90,
               assumptions=["decimal and floating-point rounding is ignored", "swap amounts are arbitrary functions of order and amount (decided by C14)",
                            "books of up to three orders"])
    for g_ in (fast_source, fast_target, fast_ties, fast_more, exact_target, exact_source, alpha, select):
        guarded(ck, "route", g_.__name__, lambda: g_(ck))
    return ck.finish()


if __name__ == "__main__":
    run(main)
