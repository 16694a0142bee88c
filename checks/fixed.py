"""Rounding direction and word size of integer expressions: every value term is mapped to the rational expression it
approximates and the side it lies on (a small type system over add, sub, mul, floor and ceiling division)."""
from checks.c20 import Sc
from checks.c14 import *

IMPL, MATCH = "core.trade.impl.", "core.match.impl."
MAX256, MAX128 = 2 ** 256 - 1, 2 ** 128 - 1
EXACT_, DOWN, UP, MIXED = "exact", "down", "up", "mixed"
FLIP = {EXACT_: EXACT_, DOWN: UP, UP: DOWN, MIXED: MIXED}


def join(*ds):
    ds = {d for d in ds if d != EXACT_}
    return EXACT_ if not ds else ds.pop() if len(ds) == 1 else MIXED


class Unknown(Exception):
    pass


def num(t):
    return cval(t) if t.op == "const" and type(cval(t)) is int else None


def minus_const(t):
    """(rest, k) with t = rest + k"""
    if t.op == "add":
        for a, b in (t.args, t.args[::-1]):
            k = num(b)
            if k is not None:
                r, j = minus_const(a)
                return r, j + k
    if t.op == "sub" and num(t.args[1]) is not None:
        r, j = minus_const(t.args[0])
        return r, j - num(t.args[1])
    return t, 0


def addends(t):
    if t.op == "add":
        return addends(t.args[0]) + addends(t.args[1])
    if t.op == "sub":
        return addends(t.args[0]) + [NEG(x) for x in addends(t.args[1])]
    return [t]


def ceil_of(n, c):
    """a when n = a + c - 1"""
    parts = addends(n)
    k = sum(num(x) for x in parts if num(x) is not None)
    rest = [x for x in parts if num(x) is None]
    kc = num(c)
    if kc is not None:
        if kc > 1 and k % kc == kc - 1 and k == kc - 1 and rest:
            out = rest
        else:
            return None
    else:
        if k != -1 or c not in rest and not set(addends(c)) <= set(rest):
            return None
        out = list(rest)
        for x in ([c] if c in rest else addends(c)):
            out.remove(x)
    if not out:
        return None
    r = out[0]
    for x in out[1:]:
        r = arith("add", r, x)
    return r


def positive_rest(t):
    """(a, c) when t is 1 where a % c is not zero, 0 elsewhere"""
    if t.op == "ite" and num(t.args[1]) == 1 and num(t.args[2]) == 0:
        t = t.args[0]
    elif t.op == "ite" and num(t.args[1]) == 0 and num(t.args[2]) == 1:
        t = NOT(t.args[0])
    elif t.op in ("int", "int_", "bool") and isinstance(t.args[0], T):
        t = t.args[0]
    m = None
    if t.op == "lt" and num(t.args[0]) == 0 or t.op == "le" and num(t.args[0]) == 1:
        m = t.args[1]
    elif t.op == "not" and t.args[0].op == "eq":
        a, b = t.args[0].args
        m = a if num(b) == 0 else b if num(a) == 0 else None
    elif t.op == "not" and t.args[0].op == "le" and num(t.args[0].args[1]) == 0:
        m = t.args[0].args[0]
    return m.args if m is not None and m.op == "mod" else None


_norm = {}


def norm(t):
    """integer divisions that round up, however they are written, as ceildiv"""
    if not isinstance(t, T):
        return t
    if t not in _norm:
        a = [norm(x) for x in t.args]
        r = mk(t.op, *a) if any(x is not y for x, y in zip(a, t.args)) else t
        if r.op == "floordiv":
            c = ceil_of(*r.args)
            if c is not None:
                r = mk("ceildiv", c, r.args[1])
        elif r.op == "neg" and r.args[0].op == "floordiv":
            n, c = r.args[0].args
            if n.op == "neg":
                r = mk("ceildiv", n.args[0], c)
            elif n.op == "mul" and num(n.args[0]) == -1:
                r = mk("ceildiv", n.args[1], c)
            elif n.op == "mul" and any(x.op == "neg" for x in n.args):
                q = [x.args[0] if x.op == "neg" else x for x in n.args]
                if sum(x.op == "neg" for x in n.args) == 1:
                    r = mk("ceildiv", arith("mul", *q), c)
        elif r.op == "add":
            for p, q in (r.args, r.args[::-1]):
                if p.op != "floordiv":
                    continue
                n, c = p.args
                if num(q) == 1:
                    parts = addends(n)
                    if sum(num(x) for x in parts if num(x) is not None) == -1:
                        rest = [x for x in parts if num(x) is None]
                        if rest:
                            s = rest[0]
                            for x in rest[1:]:
                                s = arith("add", s, x)
                            r = mk("ceildiv", s, c)
                            break
                elif positive_rest(q) == (n, c):
                    r = mk("ceildiv", n, c)
                    break
        _norm[t] = r
    return _norm[t]


class Rounding:
    def __init__(self, f, atoms=()):
        self.f, self.memo = f, {}
        self.atoms = dict(atoms)

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self._of(t)
        return self.memo[t]

    def _of(self, t):
        if t in self.atoms:
            return self.atoms[t], EXACT_
        o, a = t.op, t.args
        if o == "const" and num(t) is not None or o == "sym" or o == "call" and a[0].op == "ext" and a[0].args[0].startswith("U."):
            return t, EXACT_
        if o == "neg":
            v, d = self.of(a[0])
            return NEG(v), FLIP[d]
        if o == "add":
            (x, d), (y, e) = self.of(a[0]), self.of(a[1])
            return arith("add", x, y), join(d, e)
        if o == "sub":
            (x, d), (y, e) = self.of(a[0]), self.of(a[1])
            return SUB(x, y), join(d, FLIP[e])
        if o == "mul":
            (x, d), (y, e) = self.of(a[0]), self.of(a[1])
            for p, q in ((d, a[1]), (e, a[0])):
                if p != EXACT_ and not self.nonneg(q):
                    raise Unknown(f"sign of {brief(q, 120)}")
            return arith("mul", x, y), join(d, e)
        if o == "pow" and num(a[1]) is not None and num(a[1]) >= 0:
            (x, d) = self.of(a[0])
            if d != EXACT_ and not self.nonneg(a[0]):
                raise Unknown(f"sign of {brief(a[0], 120)}")
            return mk("pow", x, a[1]), d
        if o in ("floordiv", "ceildiv"):
            n, side = a[0], UP if o == "ceildiv" else DOWN
            (x, d), (y, e) = self.of(n), self.of(a[1])
            if e != EXACT_ and not self.nonneg(n):
                raise Unknown(f"sign of {brief(n, 120)}")
            return arith("div", x, y), join(side, d, FLIP[e])
        raise Unknown(f"no rounding rule for {brief(t, 120)}")

    def nonneg(self, t):
        """known not to be negative: inputs are counted amounts, and checked values are"""
        if num(t) is not None:
            return num(t) >= 0
        if t in self.atoms or t.op in ("sym", "max", "min", "call"):
            return True
        if t.op in ("add", "mul", "floordiv", "ceildiv"):
            if all(self.nonneg(x) for x in t.args):
                return True
            if t.op == "mul" and t.args[0] is t.args[1]:
                return True
        if t.op == "pow" and num(t.args[1]) is not None and num(t.args[1]) % 2 == 0:
            return True
        return t in self.checked

    checked = frozenset()


def nodes(t, out=None):
    out = {} if out is None else out
    if t not in out:
        out[t] = True
        for x in t.args:
            if isinstance(x, T):
                nodes(x, out)
    return out


def leaves(t, g=TRUE):
    """(condition, value) of the cases of a value"""
    if t.op == "ite":
        return leaves(t.args[1], AND(g, t.args[0])) + leaves(t.args[2], AND(g, NOT(t.args[0])))
    return [(g, t)]


def conj(t):
    return [y for x in t.args for y in conj(x)] if t.op == "and" else [] if t is TRUE else [t]


def bounds(g):
    """upper and lower integer bounds the conjuncts of g put on terms"""
    hi, lo = {}, {}
    for c in conj(norm(g)):
        neg = c.op == "not"
        if neg:
            c = c.args[0]
        if c.op not in ("le", "lt") or len(c.args) != 2:
            continue
        a, b = c.args
        strict = c.op == "lt"
        if neg:
            a, b, strict = b, a, not strict
        if num(b) is not None:
            v = num(b) - (1 if strict else 0)
            hi[a] = min(hi.get(a, v), v)
        if num(a) is not None:
            v = num(a) + (1 if strict else 0)
            lo[b] = max(lo.get(b, v), v)
    for t, v in list(lo.items()):
        hi.setdefault(norm(NEG(t)), -v)
    for t, v in list(hi.items()):
        lo.setdefault(norm(NEG(t)), -v)
    return hi, lo


def rounding(f, value, g):
    """(ideal, direction) of a value under g: divisors used more than once are taken as they are (they cancel)"""
    hi, lo = bounds(g)
    value = norm(value)
    divs = [x.args[1] for x in nodes(value) if x.op in ("floordiv", "ceildiv")]
    shared = {d for d in divs if divs.count(d) > 1 and num(d) is None and d.op != "sym"}
    cases = []
    for use in (shared, set()):
        names = {d: sym(f"div{i}") for i, d in enumerate(sorted(use, key=lambda d: brief(d, 300)))}
        r = Rounding(f, names)
        r.checked = {t for t, v in lo.items() if v >= 0}
        for n in names.values():
            f.positive.append(n) if n not in f.positive else None
        try:
            cases.append(r.of(value))
        except Unknown as e:
            cases.append((None, str(e)))
    return cases


def wide(t, checked, bad, seen):
    """every operation below t yields a value that was checked, is a quotient of checked ones, or is the double-width numerator of a
    division; others are collected in bad"""
    if t in seen:
        return
    seen.add(t)
    if t.op in ("const", "sym") or t.op == "call":
        return
    if t.op in ("max", "min", "ite"):
        for x in t.args:
            if isinstance(x, T) and x.op not in ("and", "or", "not", "le", "lt", "eq"):
                wide(x, checked, bad, seen)
        return
    if t.op in ("floordiv", "ceildiv"):
        n, c = t.args
        parts = [x for x in addends(n) if num(x) is None and x is not c and not (x.op == "neg" and x.args[0] is c)]
        whole = n in checked or n.op in ("sym", "const", "floordiv") and t not in checked
        if not whole and t not in checked and not (n.op in ("max", "min")):
            bad.append(t)
        for p in ([n] if whole or n.op in ("max", "min") else parts):
            if p.op == "mul" and not whole:
                for x in p.args:
                    wide(x, checked, bad, seen)
            elif not set(addends(c)) >= {p}:
                wide(p, checked, bad, seen)
        wide(c, checked, bad, seen)
        return
    if t.op in ("add", "mul", "sub", "neg", "pow"):
        if t not in checked:
            bad.append(t)
        for x in (addends(t) if t.op in ("add", "sub") else t.args):
            if isinstance(x, T):
                x = x.args[0] if x.op == "neg" else x
                wide(x, checked, bad, seen)
        return
    raise Unknown(f"no word-size rule for {brief(t, 120)}")
