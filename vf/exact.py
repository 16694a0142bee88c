"""Values of terms at exact integer points: a point where two terms differ shows that they are different functions.
(Equality is never concluded from points.)  Only terms of the analysis are evaluated, never code of the project."""
import math
from fractions import Fraction as F
from .terms import *


class NoValue(Exception):
    pass


class Fails(Exception):
    """the operation raises an exception"""


def value(t, env):
    o, a = t.op, t.args
    if o == "const":
        v = cval(t)
        return F(v) if isinstance(v, float) and math.isfinite(v) else v
    if o == "sym":
        if a[0] in env:
            return env[a[0]]
        raise NoValue(a[0])
    ev = lambda x: value(x, env)
    if o == "ite":
        return ev(a[1] if ev(a[0]) else a[2])
    if o in ("and", "or"):
        for x in a:
            v = ev(x)
            if bool(v) is (o == "or"):
                return v
        return o == "and"
    if o in ("truth", "bool"):
        return bool(ev(a[0]))
    try:
        xs = [ev(x) for x in a if isinstance(x, T)] if o not in ("call", "mcall", "meth") else None
        if o == "not":
            return not xs[0]
        if o == "isnone":
            return xs[0] is None
        if o == "lt":
            return not close(xs[0], xs[1]) and xs[0] < xs[1]
        if o == "eq":
            return xs[0] == xs[1] or close(xs[0], xs[1])
        if o == "add":
            return sum(xs)
        if o == "mul":
            r = 1
            for x in xs:
                r *= x
            return r
        if o == "neg":
            return -xs[0]
        if o == "div":
            return F(xs[0]) / F(xs[1])
        if o == "floordiv":
            return _fl(F(xs[0]) / F(xs[1]), math.floor)
        if o == "mod":
            return xs[0] % xs[1]
        if o == "pow":
            if F(xs[1]).denominator != 1:
                raise NoValue(o)
            return F(xs[0]) ** int(xs[1]) if xs[1] < 0 else xs[0] ** int(xs[1])
        if o in ("lshift", "rshift"):
            x, n = _i(xs[0]), _i(xs[1])
            if n < 0:
                raise Fails(o)
            if n > 10000:
                raise NoValue(o)
            return x << n if o == "lshift" else x >> n
        if o == "bitor":
            return _i(xs[0]) | _i(xs[1])
        if o == "bitand":
            return _i(xs[0]) & _i(xs[1])
        if o == "bitxor":
            return _i(xs[0]) ^ _i(xs[1])
        if o == "call" and a[0].op == "ext" and a[0].args[0].split(".")[-1] in ("Decimal", "float") and len(a) == 2:
            return ev(a[1])
        if o == "bitlen":
            return _i(xs[0]).bit_length()
        if o in ("int", "float", "Decimal"):
            return _fl(xs[0], int) if o == "int" else xs[0]
        if o == "str":
            return str(xs[0])
        if o == "abs":
            return abs(xs[0])
        if o in ("min", "max"):
            return (min if o == "min" else max)(xs)
        if o == "round" and len(xs) == 2 and xs[1] is None:
            return round(xs[0])
        if o == "len":
            return len(xs[0])
        if o == "tuple":
            return tuple(xs)
        if o == "sqrt":
            q = F(xs[0])
            if q < 0:
                raise NoValue(o)
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n != q.numerator or d * d != q.denominator:
                return F(math.isqrt(q.numerator * q.denominator << 1200), q.denominator << 600)     # to 600 binary places
            return F(n, d)
        if o == "isinst" and a[1].op == "ext":
            return isinstance(ev(a[0]), {"int": int, "str": str, "float": (float, F)}.get(a[1].args[0].split(".")[-1], ()))
        if o == "call" and a[0].op == "ext" and not any(x.op == "kw" for x in a[1:]):
            n = a[0].args[0].replace("builtins.", "")
            xs = [ev(x) for x in a[1:]]
            if n in ("bin", "hex", "oct"):
                return {"bin": bin, "hex": hex, "oct": oct}[n](_i(xs[0]))
            if n in ("math.ceil", "math.floor", "math.trunc"):
                return _fl(xs[0], getattr(math, n[5:]))
            if n in ("math.log2", "math.log", "math.log10") and xs[0] > 0:
                return F(getattr(math, n[5:])(*xs))      # the double the library returns
            if n == "math.isqrt":
                return math.isqrt(_i(xs[0]))
        if o == "mcall":
            n, recv = a[0], ev(a[1])
            xs = [ev(x) for x in a[2:]]
            if n == "bit_length" and isinstance(recv, int):
                return recv.bit_length()
            if n in ("lstrip", "rstrip", "strip", "zfill", "startswith", "endswith", "upper", "lower") and isinstance(recv, str):
                return getattr(recv, n)(*xs)
    except (TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError) as e:
        raise NoValue(str(e))
    raise NoValue(o)


EPS = F(1, 2 ** 300)


def close(x, y):
    """equal up to the precision of the square roots"""
    if isinstance(x, F) and isinstance(y, (F, int)) or isinstance(y, F) and isinstance(x, int):
        return x != y and abs(x - y) <= EPS * max(1, abs(x))
    return False


def _fl(x, fn):
    if isinstance(x, F) and x.denominator != 1 and abs(x - round(x)) < EPS * max(1, abs(x)):
        raise NoValue("next to an integer")
    return fn(x)


def _i(x):
    if isinstance(x, F):
        if x.denominator != 1:
            raise NoValue("shift")
        return int(x)
    return x


def bits(t, intval=lambda x: False):
    """numbers of binary digits written in different ways become one operator"""
    m = {}

    def go(x):
        if x in m:
            return m[x]
        y = x
        if any(isinstance(v, T) for v in x.args):
            y = rebuild(x.op, [go(v) if isinstance(v, T) else v for v in x.args])
        if y.op == "mcall" and y.args[0] == "bit_length" and len(y.args) == 2:
            y = mk("bitlen", y.args[1])
        elif y.op == "call" and len(y.args) == 1 and y.args[0].op == "attr" and "bit_length" in y.args[0].args:
            y = mk("bitlen", next(v for v in y.args[0].args if isinstance(v, T)))
        elif y.op == "len" and y.args[0].op == "mcall" and y.args[0].args[0] == "lstrip" and len(y.args[0].args) == 3:
            r, c = y.args[0].args[1:]
            if r.op == "call" and r.args[0] is mk("ext", "builtins.bin") or r.op == "call" and r.args[0] is mk("ext", "bin"):
                if c.op == "const" and cval(c) in ("0b", "b0"):
                    y = mk("bitlen", r.args[1])
        elif y.op == "ite" and y.args[2] is const(0) and y.args[1].op == "bitlen" and y.args[0].op == "lt" and y.args[0].args == (const(0), y.args[1].args[0]):
            y = y.args[1]
        elif y.op == "bitlen" and y.args[0].op == "const" and type(cval(y.args[0])) is int:
            y = const(cval(y.args[0]).bit_length())
        elif y.op in ("lshift", "rshift") and (y.args[1] is const(0) or y.args[0] is const(0)):
            y = y.args[0]
        elif y.op == "max" and all(v.op == "const" for v in y.args):
            y = const(max(cval(v) for v in y.args))
        elif y.op == "call" and len(y.args) == 2 and y.args[0].op == "ext" and y.args[0].args[0].split(".")[-1] in ("hex", "bin") and y.args[1].op == "const" and type(cval(y.args[1])) is int:
            y = const((hex if y.args[0].args[0].endswith("hex") else bin)(cval(y.args[1])))
        elif y.op == "isinst" and y.args[0].op == "const" and y.args[1].op == "ext" and y.args[1].args[0].split(".")[-1] in ("int", "str", "float"):
            y = const(isinstance(cval(y.args[0]), {"int": int, "str": str, "float": float}[y.args[1].args[0].split(".")[-1]]))
        elif y.op == "isinst" and y.args[1].op == "ext" and y.args[1].args[0].split(".")[-1] == "int" and intval(y.args[0]) and y.args[0].op not in ("sym", "const"):
            y = TRUE
        elif y.op == "int" and intval(y.args[0]):
            y = y.args[0]
        m[x] = y
        return y
    return go(t)


def outcome(t, env):
    try:
        return value(t, env)
    except Fails:
        return "a failure"


def difference(a, b, points):
    """a point at which the two terms have different values, or None"""
    for env in points:
        try:
            x, y = outcome(a, env), outcome(b, env)
        except (NoValue, RecursionError):
            continue
        if isinstance(x, bool) != isinstance(y, bool) or x != y and not close(x, y):
            return env, x, y
    return None
