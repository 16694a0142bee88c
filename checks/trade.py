"""Obligations about the trade path: quotes, limits, settlement, eligibility, forwarding."""
from vf.model import *
from vf.checklib import Check, run

DIRS = ("amm_buys", "amm_sells")
NN = LE(const(0), sym("AMT"))
POS = sym("POS")
FREE = {"support_partial": sym("PARTIAL"), "threshold_orders": sym("THR"), "use_positions_matchlevel": sym("ML"), "inpair": TRUE}
SETUP = {"debug": sym("DEBUG"), "verbose": sym("VERBOSE"), "decimals": sym("DEC"), "exclude_future": sym("FUTURE")}
# a request with the options at their defaults; with free options; with a position restriction; on a simulator set up freely
VARIANTS = {"": ({}, {}, []), "/options": (FREE, {}, []), "/positions": ({**FREE, "use_positions": POS}, {}, [NOT(EQ(POS, NONE))]), "/setup": (FREE, SETUP, [])}


def variant(v, mode, d, args, facts, **kw):
    a, c, f = VARIANTS[v]
    return TradeRun(mode, d, {**a, **args}, list(facts) + f, ctor=c, **kw)


def guarded(ck, rule, construct, fn):
    """run one obligation; anything the analysis cannot follow is undecided"""
    try:
        fn()
    except Exception as e:
        ck.undecided(rule, construct, f"{type(e).__name__}: {e}")


def unknown(C, *ts):
    out = []
    for t in ts:
        out += C.unknowns(t)
    return out


def same3(C, a, b, assume=TRUE):
    """True / False / None(undecided)"""
    if C.same(a, b, assume):
        return True
    return None if unknown(C, a, b) or not C.differs(a, b, assume) else False


def imp3(C, a, b):
    if C.implies(a, b) or b.op == "and" and all(C.implies(a, x) for x in b.args):
        return True
    return None if unknown(C, a, b) or not C.refuted(a, b) else False


def short(r, t):
    """readable form of a term of a trade run"""
    mp = {}
    c = r.router_call()
    if c:
        mp[c[0]] = sym("ROUTES")
        if c[2] is not None:
            mp[c[2]] = sym("OFFERED")
    t = subst(t, mp)
    return brief(t, 260)


def pair_cases(r):
    """the traded token is one of the two distinct tokens of the pair: [(token, assumption)]"""
    b, q = r.field(r.PAIR, "tknb"), r.field(r.PAIR, "tknq")
    ne = AND(NOT(EQ(b, q)), NOT(EQ(q, b)))
    return [(b, ne), (q, ne)]
