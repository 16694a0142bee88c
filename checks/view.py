"""Symbolic order views and orders shared by the curve checks."""
from checks.formula import *

B, S, Y, Z = sym("B"), sym("S"), sym("Y"), sym("Z")
BT, QT = "AAA", "BBB"
PAIR = f"{BT}/{QT}"
CASES = {"base": BT, "quote": QT}
CURVE = (LT(const(0), B), LT(const(0), S), LT(const(0), Z), LE(const(0), Y), LE(Y, Z))


def curve_facts(y, z=Z):
    return LT(const(0), B), LT(const(0), S), LT(const(0), z), LE(const(0), y), LE(y, z)


NONEG = (LE(const(0), B), LE(const(0), S), LE(const(0), Z), LE(const(0), Y))


def view(ck, side, facts=None, positive=(B, S, Z), y=Y, z=Z, **kw):
    """an order view selling the base / quote token with arbitrary curve parameters"""
    f = F(ck, positive=positive)
    f.nonneg = [Y]
    f.fact(*(curve_facts(y, z) if facts is None else facts), *[NOT(EQ(t, NONE)) for t in (B, S, y, z)])
    V = f.new("CarbonOrderUI", pair=const(PAIR), tkn=const(CASES[side]), B=B, S=S, yint=z, y=y, **kw)
    f.st0.guard = ()
    f.V = V
    return f


def price(f, dydx, side):
    """a native price dy/dx in the convention of the pair"""
    return dydx if side == "quote" else arith("div", const(1), dydx)
