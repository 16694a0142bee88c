"""
Canonical forms of value terms.

`Canon.canon(t)` maps a term to a canonical term: numeric expressions become rational
functions over atoms (equal functions get the same canonical term), conditions become
ordered decision diagrams over canonical comparisons, gates become decision diagrams with
canonical leaves.  Two terms denote the same function of their atoms if and only if (for the
rational fragment) their canonical terms are identical.
"""
import math
from fractions import Fraction as F
from decimal import Decimal as _D
from .terms import *

P = (1 << 61) - 1
ROOT = 12


class Undecided(Exception):
    pass


# ------------------------------------------------------------------------ polynomials
def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        s = d.get(k, 0) + e
        if s == 0:
            d.pop(k, None)
        else:
            d[k] = s
    return tuple(sorted(d.items()))


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pmul(p, q):
    if len(p) * len(q) > 60000:
        raise Undecided("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


ONE = {(): F(1)}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else ONE

    def is_const(self):
        return self.d == ONE and (not self.n or (len(self.n) == 1 and () in self.n))

    def const(self):
        return self.n.get((), F(0))


class Canon:
    def __init__(self, interp=None, positive=(), integer=(), ident_str=True, approx_ident=()):
        self.atoms = []            # index -> canonical T
        self.index = {}
        self.val = []              # index -> fingerprint
        self.rats = {}             # fingerprint -> [(Rat, T)]
        self.ratof = {}            # T('rat',i) -> Rat
        self.memo = {}
        self.interp = interp
        self.positive = set(positive)
        self.ident_str = ident_str
        self.approx_ident = set(approx_ident)   # e.g. {'round'}: treat as identity
        self.rule = None
        self.rewrite = {}          # canonical T -> canonical T
        self.split_abs = False     # |x| as a case distinction on the sign of x
        self.nonneg = set()        # canonical atoms known to be >= 0
        self.prunes = {}

    # ---------------------------------------------------------------- atoms & rationals
    def atom(self, t):
        i = self.index.get(t)
        if i is None:
            i = len(self.atoms)
            self.index[t] = i
            self.atoms.append(t)
            h = (i * 2654435761 + 97) * 6364136223846793005 + 1442695040888963407 * (i + 7)
            h = pow(h % P or 3, 5, P) or 5
            self.val.append(pow(h, ROOT, P))
        return Rat({((i, F(1)),): F(1)})

    def _fp_poly(self, p):
        s = 0
        for m, c in p.items():
            v = (c.numerator % P) * pow(c.denominator % P, P - 2, P) % P
            for k, e in m:
                base = self.val[k]
                if e.denominator != 1:
                    if ROOT % e.denominator:
                        raise Undecided("root")
                    # val = g**ROOT ; take g
                    g = self._root(k)
                    ex = int(e * ROOT)
                    v = v * pow(g, ex % (P - 1), P) % P
                else:
                    v = v * pow(base, int(e) % (P - 1), P) % P
            s = (s + v) % P
        return s

    def _root(self, k):
        i = k
        h = (i * 2654435761 + 97) * 6364136223846793005 + 1442695040888963407 * (i + 7)
        return pow(h % P or 3, 5, P) or 5

    def fp(self, r):
        n, d = self._fp_poly(r.n), self._fp_poly(r.d)
        return n * pow(d, P - 2, P) % P

    def same_rat(self, a, b):
        return _padd(_pmul(a.n, b.d), _pmul(b.n, a.d), -1) == {}

    def rat_t(self, r):
        """canonical term of a rational function"""
        if r.is_const():
            c = r.const()
            return mk("num", c)
        if r.d == ONE and len(r.n) == 1:
            (m, c), = r.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atoms[m[0][0]]
        if len(r.n) == len(r.d) and r.n.keys() == r.d.keys():
            c = {x / y for x, y in zip((r.n[m] for m in r.d), r.d.values())}
            if len(c) == 1:
                return mk("num", c.pop())
        f = self.fp(r)
        lst = self.rats.setdefault(f, [])
        for q, t in lst:
            if self.same_rat(q, r):
                return t
        t = mk("rat", id(self), f, len(lst))
        lst.append((r, t))
        self.ratof[t] = r
        return t

    def to_rat(self, t):
        if t.op == "num":
            return Rat({(): t.args[0]} if t.args[0] else {})
        r = self.ratof.get(t)
        if r is not None:
            return r
        return self.atom(t)

    # normalise numerator/denominator
    def mkrat(self, n, d):
        if not d:
            raise Undecided("division by zero")
        if not n:
            return Rat({})
        if len(d) == 1:
            (m, c), = d.items()
            inv = tuple((k, -e) for k, e in m)
            n = {_mono_mul(mm, inv): cc / c for mm, cc in n.items()}
            d = ONE
        return self.reduce(Rat(n, d))

    def reduce(self, r):
        """apply s*s -> P for root atoms"""
        def bad(p):
            for m in p:
                for k, e in m:
                    if self.atoms[k].op == "sqrt_" and (e >= 2 or e < 0):
                        return True
            return False
        if not bad(r.n) and not bad(r.d):
            return r
        n, d = self.red_poly(r.n), self.red_poly(r.d)
        return self.div(n, d)

    def red_poly(self, p):
        out = Rat({})
        for m, c in p.items():
            base = []
            extra = None
            for k, e in m:
                a = self.atoms[k]
                if a.op == "sqrt_" and e.denominator == 1 and (e >= 2 or e < 0):
                    q, rem = divmod(int(e), 2)
                    inner = self.ipow(self.to_rat(a.args[0]), q)
                    extra = inner if extra is None else self.mul(extra, inner)
                    if rem:
                        base.append((k, F(1)))
                else:
                    base.append((k, e))
            term = Rat({tuple(base): c})
            if extra is not None:
                term = self.mul(term, extra)
            out = self.add(out, term)
        return out

    def add(self, a, b):
        if a.d == b.d:
            return self.mkrat(_padd(a.n, b.n), a.d)
        return self.mkrat(_padd(_pmul(a.n, b.d), _pmul(b.n, a.d)), _pmul(a.d, b.d))

    def mul(self, a, b):
        return self.mkrat(_pmul(a.n, b.n), _pmul(a.d, b.d) if (a.d != ONE or b.d != ONE) else ONE)

    def div(self, a, b):
        if not b.n:
            raise Undecided("division by zero")
        return self.mkrat(_pmul(a.n, b.d), _pmul(a.d, b.n))

    def neg(self, a):
        return Rat({m: -c for m, c in a.n.items()}, a.d)

    def ipow(self, a, n):
        if n < 0:
            return self.div(Rat(dict(ONE)), self.ipow(a, -n))
        r = Rat(dict(ONE))
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def rpow(self, a, e):
        """a ** e for rational e"""
        if e.denominator == 1 and abs(e) <= 8:
            return self.ipow(a, int(e))
        if a.is_const():
            c = a.const()
            if c >= 0 and e.denominator == 2:
                rn, rd = _isqrt(c.numerator), _isqrt(c.denominator)
                if rn is not None and rd is not None:
                    return self.ipow(Rat({(): F(rn, rd)}), int(e * 2))
        if e.denominator == 4 and len(a.n) * len(a.d) > 1:
            return self.rpow(self.rpow(a, F(1, 2)), e * 2)
        if e.denominator in (2, 3, 4, 6, 12) and a.d == ONE and len(a.n) == 1 and not a.is_const():
            (m, c), = a.n.items()
            cc = self.rpow(Rat({(): c}), e) if c != 1 else Rat(dict(ONE))
            if all(self.atoms[k].op != "sqrt_" for k, _ in m):
                return self.mul(cc, Rat({tuple((k, x * e) for k, x in m): F(1)}))
        if e.denominator == 2:
            # content extraction: sqrt(mono * Q) = sqrt(mono) * sqrt(Q)
            n, d = a.n, a.d
            cn, n2 = self.content(n)
            cd, d2 = self.content(d)
            pre = Rat(dict(ONE))
            mono = _mono_mul(cn, tuple((k, -x) for k, x in cd))
            if mono:
                pre = Rat({tuple((k, x * F(1, 2)) for k, x in mono): F(1)})
            if len(n2) > 1:
                q = self.psqrt(n2)
                if q is not None and self.pos_poly(q):
                    pre = self.mul(pre, Rat(q))
                    n2 = dict(ONE)
            if len(d2) > 1:
                q = self.psqrt(d2)
                if q is not None and self.pos_poly(q):
                    pre = self.div(pre, Rat(q))
                    d2 = dict(ONE)
            inner = self.mkrat(n2, d2)
            if inner.is_const() and inner.const() == 1:
                s = Rat(dict(ONE))
            else:
                s = self.atom(mk("sqrt_", self.rat_t(inner)))
            return self.ipow(self.mul(pre, s), int(e * 2))
        return self.atom(mk("pow_", self.rat_t(a), mk("num", e)))

    def content(self, p):
        """largest monomial dividing p, and the quotient"""
        ms = list(p)
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for k in list(com):
                com[k] = min(com[k], d.get(k, F(0)))
        neg = {}
        for m in ms:
            for k, e in m:
                if e < 0 and k not in com:
                    neg[k] = min(neg.get(k, F(0)), e)
        com = {k: e for k, e in com.items() if e != 0}
        com.update(neg)
        # only even split keeps the form canonical: pull everything out
        inv = tuple(sorted((k, -e) for k, e in com.items()))
        return tuple(sorted(com.items())), {_mono_mul(m, inv): c for m, c in p.items()}

    # ---------------------------------------------------------------- decision diagrams
    def dd(self, var, *br):
        if all(b is br[0] for b in br):
            return br[0]
        return mk("dd", var, *br)

    def lift(self, f, *ts):
        """apply f leafwise to decision diagrams"""
        memo = {}

        def go(xs):
            r = memo.get(xs)
            if r is not None:
                return r
            tops = [x.args[0] for x in xs if x.op == "dd"]
            if not tops:
                r = f(*xs)
            else:
                v = min(tops, key=lambda t: t.key)
                n = max(len(x.args) - 1 for x in xs if x.op == "dd" and x.args[0] is v)
                brs = []
                for i in range(n):
                    ys = tuple(x.args[1 + i] if x.op == "dd" and x.args[0] is v else x for x in xs)
                    brs.append(go(ys))
                r = self.dd(v, *brs)
            memo[xs] = r
            if len(memo) > 60000:
                raise Undecided("decision diagram too large")
            return r
        return go(tuple(ts))

    def ite(self, c, a, b):
        memo = {}

        def go(c, a, b):
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            if a is b:
                return a
            k = (c, a, b)
            r = memo.get(k)
            if r is not None:
                return r
            xs = (c, a, b)
            tops = [x.args[0] for x in xs if x.op == "dd"]
            if c.op != "dd":
                raise Undecided("non boolean condition")
            v = min(tops, key=lambda t: t.key)
            n = max(len(x.args) - 1 for x in xs if x.op == "dd" and x.args[0] is v)
            brs = [go(*[x.args[1 + i] if x.op == "dd" and x.args[0] is v else x for x in xs]) for i in range(n)]
            r = self.dd(v, *brs)
            memo[k] = r
            if len(memo) > 60000:
                raise Undecided("decision diagram too large")
            return r
        return go(c, a, b)

    def b_not(self, a):
        return self.ite(a, FALSE, TRUE)

    def b_and(self, *xs):
        r = TRUE
        for x in xs:
            r = self.ite(r, x, FALSE)
        return r

    def b_or(self, *xs):
        r = FALSE
        for x in xs:
            r = self.ite(r, TRUE, x)
        return r

    def bvar(self, t):
        return self.dd(mk("bv", t), FALSE, TRUE)

    # sign of a canonical difference: (-1, 0, +1)
    def sign(self, r):
        """(variable, orientation) of the sign of rational r, or an int if decided"""
        if r.is_const():
            c = r.const()
            return (0, (c > 0) - (c < 0))
        lead = None
        for m in sorted(r.n, key=lambda m: (len(m), m)):
            lead = r.n[m]
            break
        s = 1
        if r.d != ONE:
            dl = r.d[sorted(r.d, key=lambda m: (len(m), m))[0]]
            r = Rat({m: c / abs(lead) for m, c in r.n.items()}, {m: c / dl for m, c in r.d.items()})
            lead = lead / dl
            if dl < 0:
                r = Rat({m: c * -1 for m, c in r.n.items()}, r.d)
                lead = r.n[sorted(r.n, key=lambda m: (len(m), m))[0]]
                r = Rat({m: c for m, c in r.n.items()}, r.d)
        else:
            r = Rat({m: c / abs(lead) for m, c in r.n.items()}, r.d)
        # strip factors known positive
        if self.positive and r.d == ONE:
            com, n2 = self.content(r.n)
            keep = []
            strip = []
            for k, e in com:
                (strip if self.atoms[k] in self.positive else keep).append((k, e))
            if strip:
                inv = tuple((k, -e) for k, e in strip)
                r = Rat({_mono_mul(m, inv): c for m, c in r.n.items()}, ONE)
        if r.d != ONE and self.pos_poly(r.d):
            r = Rat(r.n, ONE)
            lead = r.n[sorted(r.n, key=lambda m: (len(m), m))[0]]
            r = Rat({m: c / abs(lead) for m, c in r.n.items()}, r.d)
        a = self.rat_t(r)
        b = self.rat_t(self.neg(r))
        if self.fpk(b) < self.fpk(a):
            a, s = b, -s
        return (mk("sv", a), s)

    def fpk(self, t):
        return self.fp(self.to_rat(t))

    def cmp(self, a, b, outs):
        """outs = results for a<b, a==b, a>b"""
        def leaf(x, y):
            d = self.add(self.to_rat(x), self.neg(self.to_rat(y)))
            v, s = self.sign(d)
            if v == 0:
                return outs[1 + s]
            o = outs if s > 0 else outs[::-1]
            if v.args[0] in self.positive or self.pos_t(v.args[0]):
                return o[2]
            if self.positive and self.pos_poly((q := self.neg(self.to_rat(v.args[0]))).n) and self.pos_poly(q.d):
                return o[0]
            return self.dd(v, *o)
        return self.lift(leaf, a, b)

    def pos_t(self, t):
        """canonical term known to be positive (product of positive atoms)"""
        if not self.positive:
            return False
        r = self.to_rat(t)
        return self.pos_poly(r.n) and self.pos_poly(r.d)

    def pos_poly(self, p):
        """polynomial known to be positive"""
        strict = False
        for m, c in p.items():
            if c <= 0:
                return False
            ok = all(self.atoms[k] in self.positive or self.atoms[k].op == "sqrt_" and self.pos_t(self.atoms[k].args[0]) for k, _ in m)
            strict = strict or ok
            if not ok and not all(self.atoms[k] in self.positive or self.atoms[k] in self.nonneg or e.denominator == 1 and e % 2 == 0 for k, e in m):
                return False
        return strict

    def psqrt(self, p):
        """polynomial q with q*q = p, or None"""
        vs = sorted({k for m in p for k, _ in m})
        key = lambda m: tuple(dict(m).get(v, F(0)) for v in vs)
        top = max(p, key=key)
        cn, cd = _isqrt(p[top].numerator) if p[top] > 0 else None, _isqrt(p[top].denominator)
        if cn is None or cd is None:
            return None
        lead = tuple((k, e / 2) for k, e in top)
        lc = F(cn, cd)
        q = {lead: lc}
        rest = _padd(p, _pmul(q, q), -1)
        last = key(lead)
        for _ in range(24):
            if not rest:
                return q
            m = max(rest, key=key)
            t = _mono_mul(m, tuple((k, -e) for k, e in lead))
            if key(t) >= last or t in q:
                return None
            last = key(t)
            q[t] = rest[m] / (2 * lc)
            rest = _padd(p, _pmul(q, q), -1)
        return None

    # ---------------------------------------------------------------- main
    def canon(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._canon(t)
            if self.rule is not None:
                r = self.rule(r) if r.op != "dd" else self.lift(self.rule, r)
            r = self.rewrite.get(r, r)
            self.memo[t] = r
        return r

    NUMF = {"float", "Decimal"}

    def num(self, f, *ts):
        return self.lift(lambda *xs: self.rat_t(f(*[self.to_rat(x) for x in xs])), *ts)

    def _canon(self, t):
        o, a = t.op, t.args
        if o == "const":
            v = a[1]
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, complex)):
                return t
            if isinstance(v, float):
                if v != v or v in (float("inf"), float("-inf")):
                    return t
                return mk("num", F(_D(repr(v))))
            return mk("num", F(v))
        if o in ("num", "rat", "dd", "bv", "sv"):
            return t
        if o in ("add", "mul", "neg", "div") and any(is_bool(x) for x in a):     # truth values count as 1 and 0
            one, nil = const(1), const(0)
            return self.canon(mk(o, *[mk("ite", x, one, nil) if is_bool(x) else x for x in a]))
        if o == "add":
            return self.num(self.add, self.canon(a[0]), self.canon(a[1]))
        if o == "mul":
            return self.num(self.mul, self.canon(a[0]), self.canon(a[1]))
        if o == "neg":
            return self.num(self.neg, self.canon(a[0]))
        if o == "div":
            x, y = self.canon(a[0]), self.canon(a[1])

            def dv(p, q):
                if q.op == "num" and q.args[0] == 0:
                    return mk("divzero", p)
                return self.rat_t(self.div(self.to_rat(p), self.to_rat(q)))
            return self.lift(dv, x, y)
        if o == "pow":
            x, y = self.canon(a[0]), self.canon(a[1])

            def pw(p, q):
                if q.op == "num":
                    if p.op == "num" and q.args[0].denominator == 1 and abs(q.args[0]) <= 4096 and (p.args[0] != 0 or q.args[0] > 0):
                        return mk("num", p.args[0] ** int(q.args[0]))
                    return self.rat_t(self.rpow(self.to_rat(p), q.args[0]))
                return mk("pow_", p, q)
            return self.lift(pw, x, y)
        if o == "sqrt":
            return self.lift(lambda p: self.rat_t(self.rpow(self.to_rat(p), F(1, 2))), self.canon(a[0]))
        if o in ("float", "Decimal"):
            x = a[0]
            if x.op == "str":
                x = x.args[0]
            if x.op == "const" and isinstance(cval(x), str):
                try:
                    return mk("num", F(_D(cval(x))))
                except Exception:
                    return mk(o + "_", x)
            return self.canon(x)
        if o == "round":
            if "round" in self.approx_ident:
                return self.canon(a[0])
            x, nd = self.canon(a[0]), self.canon(a[1])

            def rnd(p, q):
                if p.op == "num" and p.args[0].denominator == 1:
                    return p
                return mk("round_", p, q)
            return self.lift(rnd, x, nd)
        if o == "abs":
            def ab(p):
                r = self.to_rat(p)
                if r.is_const():
                    return mk("num", abs(r.const()))
                if p.op == "abs_" or p.op == "sqrt_" or self.pos_t(p):
                    return p
                # |c * mono| factor
                q = self.rat_t(self.neg(r))
                if self.pos_t(q):
                    return q
                if self.split_abs:
                    return self.cmp(p, mk("num", F(0)), (q, mk("num", F(0)), p))
                if self.fp(self.to_rat(q)) < self.fp(r):
                    p = q
                return mk("abs_", p)
            return self.lift(ab, self.canon(a[0]))
        if o in ("min", "max") and all(x.op != "kw" for x in a):
            if len(a) >= 2:
                xs = []
                for x in a:
                    c = self.canon(x)
                    if c not in xs:
                        xs.append(c)

                def mm(*ys):
                    nums = [y for y in ys if y.op == "num"]
                    rest = sorted({y for y in ys if y.op != "num"})
                    flat = []
                    for y in rest:
                        if y.op == o + "_":
                            flat += list(y.args)
                        else:
                            flat.append(y)
                    if nums:
                        flat.append(mk("num", (min if o == "min" else max)(n.args[0] for n in nums)))
                    flat = sorted(set(flat))
                    if len(flat) == 1:
                        return flat[0]
                    if self.split_abs and len(flat) <= 3:
                        r = flat[0]
                        for y in flat[1:]:
                            r = self.lift(lambda u, v: self.cmp(u, v, (u, u, v) if o == "min" else (v, u, u)), r, y)
                        return r
                    return mk(o + "_", *flat)
                return self.lift(mm, *xs)
        if o == "floordiv" and "floordiv" in self.approx_ident:
            return self.canon(arith("div", a[0], a[1]))
        if o == "mod" and not isinstance(a[0], T):
            return t          # a module
        if o in ("floordiv", "mod"):
            x, y = self.canon(a[0]), self.canon(a[1])

            def fd(p, q):
                if p.op == "num" and q.op == "num" and q.args[0] != 0:
                    return mk("num", F(p.args[0] // q.args[0]) if o == "floordiv" else F(p.args[0] % q.args[0]))
                return mk(o + "_", p, q)
            return self.lift(fd, x, y)
        if o == "int":
            def it(p):
                if p.op == "num" and p.args[0].denominator == 1:
                    return p
                if p.op in ("floordiv_", "int_", "len"):
                    return p
                return mk("int_", p)
            return self.lift(it, self.canon(a[0]))
        if o == "ite":
            c = self.bool(a[0])
            if c is TRUE:
                return self.canon(a[1])
            if c is FALSE:
                return self.canon(a[2])
            return self.ite(c, self.canon(a[1]), self.canon(a[2]))
        if o in BOOLOPS:
            return self.bool(t)
        if o == "sum":
            return self.csum(t)
        if o in ("sym", "obj", "cls", "ext", "mod", "opaque", "func"):
            return t
        if o == "seg":
            return mk("seg", self.canon(a[0]), self.bool(a[1]), mk("loops", *[self.canon(x) for x in a[2].args]))
        if o == "kv":
            return mk("kv", self.canon(a[0]), self.canon(a[1]), self.bool(a[2]), mk("loops", *[self.canon(x) for x in a[3].args]))
        cs = [self.canon(x) if isinstance(x, T) else x for x in a]
        if o in ("set", "dict"):
            cs = sorted(cs, key=lambda x: x.key)
        if o in ("attr", "item", "fstr", "fmt", "str", "elem", "mcall", "isnone", "truth", "len", "last", "call") and \
                any(isinstance(c, T) and c.op == "dd" for c in cs):
            idx = [i for i, c in enumerate(cs) if isinstance(c, T)]

            def bld(*ys):
                zs = list(cs)
                for i, y in zip(idx, ys):
                    zs[i] = y
                return mk(o, *zs)
            return self.lift(bld, *[cs[i] for i in idx])
        return mk(o, *cs)

    def csum(self, t):
        l = t.args[0]
        if l.op == "list" and all(s.op == "seg" for s in l.args):
            out = Rat({})
            ok = True
            parts = []
            for s in l.args:
                e, g, ls = s.args
                ce, cg = self.canon(e), self.bool(g)
                cl = mk("loops", *[self.canon(x) for x in ls.args])
                if ce.op == "dd":
                    ok = False
                    break
                parts.append((ce, cg, cl))
            if ok:
                for ce, cg, cl in parts:
                    if not cl.args and cg is TRUE:
                        out = self.add(out, self.to_rat(ce))
                        continue
                    r = self.to_rat(ce)
                    bound = {mk("elem", x) for x in cl.args} | {mk("idx", x) for x in cl.args}
                    if r.d != ONE:
                        inner = self.atom(mk("sum_", ce, cg, cl))
                        out = self.add(out, inner)
                        continue
                    for m, c in r.n.items():
                        inv = tuple((k, e) for k, e in m if not contains_any(self.atoms[k], bound))
                        var = tuple((k, e) for k, e in m if contains_any(self.atoms[k], bound))
                        body = self.rat_t(Rat({var: F(1)}))
                        out = self.add(out, self.mul(Rat({inv: c}), self.atom(mk("sum_", body, cg, cl))))
                return self.rat_t(out)
        return mk("sum_", self.canon(l))

    def bool(self, t):
        r = self.memo.get(("b", t))
        if r is None:
            r = self._bool(t)
            self.memo[("b", t)] = r
        return r

    def _bool(self, t):
        o, a = t.op, t.args
        if t is TRUE or t is FALSE:
            return t
        if o == "dd":
            return t
        if o == "const":
            return TRUE if a[1] else FALSE
        if o == "not":
            return self.b_not(self.bool(a[0]))
        if o == "and":
            return self.b_and(*[self.bool(x) for x in a])
        if o == "or":
            return self.b_or(*[self.bool(x) for x in a])
        if o == "ite":
            return self.ite(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if o == "lt":
            return self.cmp(self.canon(a[0]), self.canon(a[1]), (TRUE, FALSE, FALSE))
        if o == "eq":
            x, y = self.canon(a[0]), self.canon(a[1])
            if x is y:
                return TRUE

            def leaf(p, q):
                if p is q:
                    return TRUE
                if p.op in ("num", "const") and q.op in ("num", "const"):
                    return FALSE
                if (p.op in ("fstr", "const", "tuple", "list", "dict", "set", "bv") or q.op in ("fstr", "const", "tuple", "list", "dict", "set", "bv")):
                    u, w = sorted((p, q))
                    return self.bvar(mk("eq", u, w))
                return self.cmp(p, q, (FALSE, TRUE, FALSE))
            return self.lift(leaf, x, y)
        if o == "truth":
            x = a[0]
            if x.op in ("exists",):
                return self.bvar(mk("exists", self.canon(x.args[0]), self.bool(x.args[1])))
            if x.op == "exc":
                return self.bvar(x)
            c = self.canon(x)

            def tl(p):
                if p is TRUE or p is FALSE:
                    return p
                if p.op == "num":
                    return TRUE if p.args[0] != 0 else FALSE
                if p.op == "const":
                    return TRUE if p.args[1] else FALSE
                if p.op == "rat":
                    return self.cmp(p, self.canon(mk("num", F(0))), (TRUE, FALSE, TRUE))
                if p.op == "len":
                    p = p.args[0]
                return self.bvar(mk("truth", p))
            return self.lift(tl, c)
        if o == "isnone":
            c = self.canon(a[0])

            def nn(p):
                if p is NONE:
                    return TRUE
                if p.op in ("num", "rat", "const", "tuple", "list", "dict", "fstr", "abs_", "round_", "obj", "new"):
                    return FALSE
                return self.bvar(mk("isnone", p))
            return self.lift(nn, c)
        if o == "in":
            cs = [self.canon(x) for x in a]
            return self.lift(lambda x, y: self.bvar(mk("in", x, y)), *cs)
        if o in ("is", "isinst"):
            return self.bvar(mk(o, *[self.canon(x) for x in a]))
        c = self.canon(t)
        return self.lift(lambda p: p if p in (TRUE, FALSE) else self.bvar(mk("truth", p)), c)

    # ---------------------------------------------------------------- queries
    def same(self, a, b, assume=TRUE):
        """identical functions (under assumption)?"""
        x, y = self.canon(a), self.canon(b)
        if x is y:
            return True
        g = self.bool(assume)
        NN_ = ("fstr", "const", "tuple", "vec", "list", "dict", "set", "bv", "obj", "new", "seg", "kv", "kw", "loops")
        SQ_ = ("tuple", "vec", "list", "seg", "kv", "kw", "new")

        def differ(p, q):
            if p is q:
                return FALSE
            if p.op in SQ_ and p.op == q.op and len(p.args) == len(q.args):     # component by component
                return self.b_or(*[self.lift(differ, u, w) if isinstance(u, T) and isinstance(w, T) else FALSE if u == w else TRUE for u, w in zip(p.args, q.args)])
            if p.op in NN_ or q.op in NN_:
                return TRUE
            return self.cmp(p, q, (TRUE, FALSE, TRUE))     # equal where the path makes them equal
        try:
            bad = self.lift(differ, x, y)
        except Undecided:
            bad = self.lift(lambda p, q: FALSE if p is q else TRUE, x, y)
        return not self.sat(self.b_and(g, bad))

    def prune(self, t, assume, depth=0):
        """t with every case distinction the assumption decides removed"""
        memo = self.prunes.setdefault(assume, {})

        def decide(c):
            if c is not TRUE and c is not FALSE:
                try:
                    if self.implies(assume, c):
                        return TRUE
                    if self.implies(assume, NOT(c)):
                        return FALSE
                except Undecided:
                    pass
            return c

        def go(t):
            if not t.args or t.op in ("const", "sym"):
                return t
            r = memo.get(t)
            if r is not None:
                return r
            if t.op in ("dict", "list", "set") and any(x.op in ("kv", "seg") for x in t.args):
                out = []
                for x in t.args:
                    if x.op in ("kv", "seg"):
                        gi = 2 if x.op == "kv" else 1
                        c = decide(go(x.args[gi]))
                        if c is FALSE:
                            continue
                        a = [go(y) if isinstance(y, T) else y for y in x.args]
                        a[gi] = c
                        x = rebuild(x.op, tuple(a))
                    else:
                        x = go(x)
                    out.append(x)
                r = rebuild(t.op, tuple(out))
            elif t.op == "ite":
                c = decide(go(t.args[0]))
                r = go(t.args[1]) if c is TRUE else go(t.args[2]) if c is FALSE else ITE(c, go(t.args[1]), go(t.args[2]))
            else:
                r = rebuild(t.op, tuple(go(x) if isinstance(x, T) else x for x in t.args)) if any(isinstance(x, T) for x in t.args) else t
            memo[t] = r
            return r
        return go(t)

    def differs(self, a, b, assume=TRUE):
        """a valuation of the atoms admitted by the assumption under which the two functions differ"""
        x, y = self.canon(a), self.canon(b)
        if x is y:
            return False
        NN_ = ("fstr", "const", "tuple", "vec", "list", "dict", "set", "bv", "obj", "new", "seg", "kv", "kw", "loops")
        SQ_ = ("tuple", "vec", "list", "seg", "kv", "kw", "new")

        def differ(p, q):
            if p is q:
                return FALSE
            if p.op in SQ_ and p.op == q.op and len(p.args) == len(q.args):     # component by component
                return self.b_or(*[self.lift(differ, u, w) if isinstance(u, T) and isinstance(w, T) else FALSE if u == w else TRUE for u, w in zip(p.args, q.args)])
            if p.op in NN_ or q.op in NN_:
                return TRUE
            return self.cmp(p, q, (TRUE, FALSE, TRUE))     # equal where the path makes them equal
        try:
            bad = self.lift(differ, x, y)
        except Undecided:
            bad = self.lift(lambda p, q: FALSE if p is q else TRUE, x, y)
        return self.realisable(self.b_and(self.bool(assume), bad))

    def refuted(self, a, b):
        """a valuation with a and not b exists"""
        return self.realisable(self.b_and(self.bool(a), self.b_not(self.bool(b))))

    # ---- is a satisfiable-looking diagram realised by actual values of its atoms?
    def realisable(self, d, tries=1500):
        if d is FALSE:
            return False
        if d is TRUE:
            return True
        lits = self.path(d)
        if lits is None:
            return False
        if self.linear(lits):
            return True
        import random
        rnd = random.Random(11)
        svs = set()
        seen = set()
        todo = [d]
        while todo:
            n = todo.pop()
            if n in seen or n.op != "dd":
                continue
            seen.add(n)
            if n.args[0].op == "sv":
                svs.add(n.args[0])
            todo += list(n.args[1:])
        POS = (1, 1, 2, 3, 0.5, 0.25, 4, 5, 7, 10, 100, 0.01, 1.5, 1e4, 1e-4)
        for i in range(tries):
            val = {}

            def atomval(k):
                v = val.get(k)
                if v is None:
                    t = self.atoms[k]
                    if t.op == "sqrt_":
                        r = rat(self.to_rat(t.args[0]))
                        v = r ** 0.5 if r >= 0 else None
                        if v is None:
                            raise ValueError
                    elif t.op == "abs_":
                        v = abs(rat(self.to_rat(t.args[0])))
                    elif t.op in ("pow_", "min_", "max_", "floordiv_", "mod_", "int_", "round_"):
                        xs = [rat(self.to_rat(x)) if x is not NONE else 0 for x in t.args]
                        v = {"pow_": lambda: xs[0] ** xs[1], "min_": lambda: min(xs), "max_": lambda: max(xs), "floordiv_": lambda: xs[0] // xs[1],
                             "mod_": lambda: xs[0] % xs[1], "int_": lambda: float(int(xs[0])), "round_": lambda: round(xs[0], int(xs[1]))}[t.op]()
                        if isinstance(v, complex):
                            raise ValueError
                    elif mathfn(t):
                        v = getattr(math, mathfn(t))(*[rat(self.to_rat(x)) for x in t.args[1:]])
                    else:
                        v = rnd.choice(POS) if rnd.random() < 0.7 else rnd.uniform(0, 10)
                        if t not in self.positive:
                            c = rnd.random()
                            if c < 0.1:
                                v = 0
                            elif c < 0.4 and t not in self.nonneg:
                                v = -v
                    val[k] = v
                return v

            def poly(p):
                s, m_ = 0.0, 0.0
                for m, c in p.items():
                    x = float(c)
                    for k, e in m:
                        a = atomval(k)
                        x *= a ** int(e) if e.denominator == 1 else a ** float(e)
                    if isinstance(x, complex):
                        raise ValueError
                    s += x
                    m_ += abs(x)
                return 0.0 if abs(s) <= 1e-11 * m_ else s

            def rat(r):
                return poly(r.n) / poly(r.d)

            def go(n):
                if n is TRUE or n is FALSE or n.op != "dd":
                    return n
                v = n.args[0]
                if v.op == "sv":
                    s = rat(self.to_rat(v.args[0]))
                    return go(n.args[1 + (1 if s == 0 else 2 if s > 0 else 0)])
                return self.dd(v, *[go(x) for x in n.args[1:]])
            try:
                r = go(d)
                if r is not FALSE and self.path(r) is not None:
                    return True
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
        return False

    def linear(self, lits):
        """the sign literals are linear in plain atoms, so that their joint satisfiability is decided exactly"""
        for v, i in lits:
            if v.op != "sv":
                continue
            r = self.to_rat(v.args[0])
            if r.d != ONE:
                return False
            for m in r.n:
                if not m:
                    continue
                if len(m) > 1 or m[0][1] != 1 or self.atoms[m[0][0]].op in DEPENDENT or mathfn(self.atoms[m[0][0]]):
                    return False
        return True

    def implies(self, a, b):
        return not self.sat(self.b_and(self.bool(a), self.b_not(self.bool(b))))

    def equivalent(self, a, b):
        return self.implies(a, b) and self.implies(b, a)

    def unsat(self, *xs):
        return not self.sat(self.b_and(*[self.bool(x) for x in xs]))

    def sat(self, d):
        """some path of the decision diagram to TRUE whose literals are not contradictory"""
        return self.path(d) is not None

    def path(self, d):
        def go(d, lits):
            if d is FALSE:
                return None
            if d is TRUE:
                return lits if self.consistent(lits) else None
            if d.op != "dd":
                return lits
            v = d.args[0]
            for i, b in enumerate(d.args[1:]):
                if b is FALSE:
                    continue
                r = go(b, lits + ((v, i),))
                if r is not None:
                    return r
            return None
        return go(d, ())

    def consistent(self, lits):
        """cheap contradiction test on a set of literals: linear facts on signs with constants,
        transitivity of orders is decided by Fourier-Motzkin elimination on monomials"""
        d = {}
        cons = []
        for v, i in lits:
            if v.op == "bv":
                d[v.args[0]] = bool(i)
            elif v.op == "sv":
                r = self.to_rat(v.args[0])
                if r.d == ONE:
                    cons.append((r.n, i - 1))
        for t, val in d.items():
            if t.op == "isnone" and val:
                if d.get(mk("truth", t.args[0])):
                    return False
            if t.op == "truth" and not val and not d.get(mk("isnone", t.args[0])) and t.args[0].op in ("sym", "attr", "item", "elem", "call", "mcall"):
                r = self.to_rat(t.args[0])     # a false number is zero
                if r.d == ONE:
                    cons.append((r.n, 0))
            if t.op == "eq" and val:
                # x == 'a' and x == 'b'
                for u, w in d.items():
                    if w and u is not t and u.op == "eq":
                        ca = [x for x in t.args if x.op == "const"]
                        cb = [x for x in u.args if x.op == "const"]
                        xa = [x for x in t.args if x.op != "const"]
                        xb = [x for x in u.args if x.op != "const"]
                        if ca and cb and xa and xb and xa[0] is xb[0] and ca[0] is not cb[0]:
                            return False
                for x in t.args:
                    if d.get(mk("isnone", x)):
                        return False
            if t.op == "in" and val and t.args[1].op == "tuple" and not t.args[1].args:
                return False
        return self.fm(cons)

    def fm(self, cons):
        """is the system of sign conditions (poly, sign) satisfiable over the rationals, with
        monomials as independent variables?"""
        pos = [a for a in self.positive]
        rows = []     # (coeffs dict, strict) meaning sum coeffs > / >= 0
        eqs = []
        for p, s in cons:
            if s > 0:
                rows.append((dict(p), True))
            elif s < 0:
                rows.append(({m: -c for m, c in p.items()}, True))
            else:
                eqs.append(dict(p))
        monos = {m for r, _ in rows for m in r} | {m for r in eqs for m in r}
        for m in monos:
            if m and all(self.atoms[k] in self.positive or self.atoms[k].op in ("sqrt_",) for k, _ in m):
                rows.append(({m: F(1)}, True))
            elif m and all(self.atoms[k] in self.positive or self.atoms[k] in self.nonneg or self.atoms[k].op in ("abs_", "sqrt_", "len")
                           or e.denominator == 1 and e % 2 == 0 for k, e in m):
                rows.append(({m: F(1)}, False))
        for e in eqs:
            rows.append((e, False))
            rows.append(({m: -c for m, c in e.items()}, False))
        vs = sorted({m for r, _ in rows for m in r if m})
        for v in vs:
            up, lo, rest = [], [], []
            for r, s in rows:
                c = r.get(v, 0)
                if c > 0:
                    lo.append((r, s, c))
                elif c < 0:
                    up.append((r, s, c))
                else:
                    rest.append((r, s))
            if len(up) * len(lo) > 400:
                return True
            for r1, s1, c1 in lo:
                for r2, s2, c2 in up:
                    n = {}
                    for m in set(r1) | set(r2):
                        x = r1.get(m, 0) / c1 - r2.get(m, 0) / c2
                        if x != 0 and m != v:
                            n[m] = x
                    rest.append((n, s1 or s2))
            rows = rest
        for r, s in rows:
            c = r.get((), F(0))
            if c < 0 or (s and c == 0):
                return False
        return True

    # ---------------------------------------------------------------- display & vocabulary
    def show(self, t, n=300):
        s = self._sh(t, 14)
        return s if len(s) <= n else s[:n - 1] + "~"

    def _sh(self, t, d):
        if not isinstance(t, T):
            return repr(t)
        if d <= 0:
            return "~"
        if t.op == "num":
            c = t.args[0]
            return str(c)
        if t.op == "rat" and t in self.ratof:
            r = self.ratof[t]
            n = self._shp(r.n, d)
            return n if r.d == ONE else f"({n})/({self._shp(r.d, d)})"
        if t.op == "dd":
            v = t.args[0]
            if v.op == "bv":
                return f"[{self._sh(v.args[0], d - 1)} ? {self._sh(t.args[2], d - 1)} : {self._sh(t.args[1], d - 1)}]"
            return f"[sign({self._sh(v.args[0], d - 1)}) -:{self._sh(t.args[1], d - 1)} 0:{self._sh(t.args[2], d - 1)} +:{self._sh(t.args[3], d - 1)}]"
        if t.op in ("sqrt_", "abs_", "round_", "floordiv_", "mod_", "pow_", "int_", "min_", "max_", "sum_"):
            return t.op[:-1] + "(" + ", ".join(self._sh(x, d - 1) for x in t.args) + ")"
        if any(isinstance(x, T) for x in t.args):
            m = {}
            for x in t.args:
                pass
        return brief(t, 200)

    def _shp(self, p, d):
        out = []
        for m, c in sorted(p.items(), key=lambda kv: (len(kv[0]), kv[0])):
            fs = []
            for k, e in m:
                s = self._sh(self.atoms[k], d - 1)
                fs.append(s if e == 1 else f"{s}^{e}")
            body = "*".join(fs)
            if not body:
                out.append(str(c))
            elif c == 1:
                out.append(body)
            elif c == -1:
                out.append("-" + body)
            else:
                out.append(f"{c}*{body}")
            if len(out) > 14:
                out.append("~")
                break
        return " + ".join(out).replace("+ -", "- ") or "0"

    def deps(self, t):
        """all atom terms a canonical term depends on (through rationals and diagrams)"""
        seen = set()
        out = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "rat" and x in self.ratof:
                r = self.ratof[x]
                for p in (r.n, r.d):
                    for m in p:
                        for k, _ in m:
                            stack.append(self.atoms[k])
                continue
            out.add(x)
            for y in x.args:
                if isinstance(y, T):
                    stack.append(y)
        return out

    ext_unknown = False              # library functions without an interpretation count as such
    extra_unknown = frozenset()      # operators an analysis additionally has no interpretation for
    UNKNOWN = {"opaque", "loopvar", "after", "more", "while", "first", "last", "maybe", "pre", "gpre", "kvstar",
               "next", "cmp", "setsub", "pdgroup", "pdt"}

    def unknowns(self, t):
        """operators in t the analysis has no interpretation for"""
        return sorted({brief(x, 80) for x in self.deps(self.canon(t)) if x.op in self.UNKNOWN or x.op in self.extra_unknown
                       or (self.ext_unknown and x.op == "call" and isinstance(x.args[0], T) and x.args[0].op == "ext" and not mathfn(x))})


DEPENDENT = ("sqrt_", "abs_", "pow_", "min_", "max_", "floordiv_", "mod_", "int_", "round_")
MATH = {"exp", "log", "log2", "log10", "floor", "ceil", "sin", "cos", "tan", "atan", "log1p", "expm1", "fabs", "trunc"}


def mathfn(t):
    """name of the mathematical function an atom applies"""
    if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "ext" and all(isinstance(x, T) and x.op != "kw" for x in t.args[1:]):
        n = t.args[0].args[0].split(".")
        if n[0] in ("math", "numpy") and n[-1] in MATH and len(n) == 2:
            return n[-1]
    return None


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None
