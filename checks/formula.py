"""Obligations that a function computes the specified value: abstract evaluation of one call on symbolic
operands, compared with the specification as gated rational normal forms."""
import ast as _ast

from checks.trade import *

_KEEP = []

RAISE = sym("<raises>")


class Out:
    """outcome of one call: value, condition under which it returns, effects"""

    def __init__(self, I, st, value, live, facts, dead=False):
        self.I, self.st, self.value, self.live, self.facts, self.dead = I, st, value, live, facts, dead
        self.effects = list(I.effects)

    @property
    def total(self):
        """value, or RAISE where the call raises"""
        return RAISE if self.dead else ITE(self.live, self.value, RAISE)


class F:
    """one analysis context: symbolic objects of project classes plus facts about them"""

    def __init__(self, ck, positive=(), facts=(), **cfg):
        self.ck = ck
        cfg.setdefault("explicit_raises", True)
        self.I = new_interp(**cfg)
        self.st0 = self.I.state()
        self.facts = list(facts)
        self.positive = list(positive)
        self.mapping = {}
        self.nonneg = []
        self._canon = None
        self.I.oracle = self.oracle

    def obj(self, name, cls, **fields):
        """a symbolic instance; given fields are fixed terms, the others are its attributes"""
        s = sym(name)
        self.I.settype(s, ("cls", self.I.qual(cls)))
        for k, v in fields.items():
            self.st0.heap[(s, "f", k)] = v
        return s

    def new(self, cls, *args, **kw):
        """an instance built by its constructor (must not fail)"""
        st = self.st0
        for f in self.facts:
            st.push(f)
        r = self.I.construct(self.I.qual(cls), list(args), kw, st, None)
        return r

    def clsref(self, cls):
        return mk("cls", self.I.qual(cls))

    def fact(self, *fs):
        self.facts += list(fs)
        return self

    def state(self):
        st = self.st0.copy()
        for f in self.facts:
            st.push(f)
        st.guard = ()
        return st

    def call(self, base, member, *args, facts=(), **kw):
        I = self.I
        st = self.state()
        for f in facts:
            st.push(f)
        st.guard = ()
        fs = AND(*(self.facts + list(facts)))
        I.effects = []
        I.limits.clear()
        dead, v = False, NONE
        try:
            v = I.getattr(base, member, st, None)
            if v.op in ("bound", "func"):
                v = I.apply(v, list(args), kw, st, None)
            v = I.freeze(v, st)
        except Dead:
            dead = True
        self.ck.absorb(I)
        return Out(I, st, v, AND(*st.guard) if st.guard else TRUE, fs, dead)

    def func(self, qual, *args, facts=(), **kw):
        """call of a module-level function or class by qualified name"""
        I = self.I
        st = self.state()
        for f in facts:
            st.push(f)
        st.guard = ()
        I.effects = []
        I.limits.clear()
        dead, v = False, NONE
        mod, _, name = qual.rpartition(".")
        try:
            fn = I.from_lookup(I.p.lookup(mod, name), name, st)
            v = I.apply(fn, list(args), kw, st, None)
            v = I.freeze(v, st)
        except Dead:
            dead = True
        self.ck.absorb(I)
        return Out(I, st, v, AND(*st.guard) if st.guard else TRUE, AND(*(self.facts + list(facts))), dead)

    def spec(self, expr, **env):
        """term of a specification expression over the given operands"""
        src = "def spec(%s):\n    from math import sqrt, log, exp\n    return (%s)\n" % (", ".join(env), expr.strip())
        node = _ast.parse(src).body[0]
        _KEEP.append(node)
        fn = self.I.mkfunc(node, next(iter(self.I.p.mods)), None, None, "spec")
        st = self.state()
        sv, self.I.effects = self.I.effects, []
        try:
            return self.I.freeze(self.I.apply(fn, list(env.values()), {}, st, None), st)
        finally:
            self.I.effects = sv

    def canon(self):
        k = (tuple(self.positive), tuple(self.nonneg))
        if self._canon is None or self._canon[0] != k:
            C = Canon(self.I, positive=self.positive)
            C.nonneg = set(self.nonneg)
            C.split_abs = True
            C.extra_unknown = {"exc", "exctype", "excvar", "prod"}
            C.ext_unknown = True
            self._canon = (k, C)
        return self._canon[1]

    def oracle(self, c):
        """a comparison decided by the signs of the operands"""
        if not self.positive or c.op not in ("lt", "le", "eq", "not") or c.op == "not" and c.args[0].op not in ("lt", "le", "eq"):
            return c
        try:
            r = self.canon().bool(c)
        except (RecursionError, ZeroDivisionError, Undecided):
            return c
        return r if r in (TRUE, FALSE) else c

    def same(self, got, want, g):
        """True / False / None: equal under g, case distinctions decided by g removed first"""
        C = self.canon()
        try:
            return same3(C, C.prune(got, g), C.prune(want, g), g)
        except RecursionError:
            return None

    # ------------------------------------------------------------------ judgements
    def S(self, t):
        return subst(t, self.mapping) if self.mapping else t

    def expect(self, rule, name, out, want, where="", facts=TRUE, strict=False):
        """the call returns `want` (raising is not allowed when strict, ignored otherwise)"""
        C = self.canon()
        g = AND(out.facts, facts)
        if out.dead:
            return self.ck.bad(rule, name, "the call always fails", where or self.where(out))
        for e in out.effects:
            if e.kind in ("badcall", "noattr", "noname") and imp3(C, self.S(g), self.S(e.guard)) is True:
                what = e.value.args[1] if e.value is not None and e.value.op == "const" else f"{e.kind} {e.key}"
                return self.ck.bad(rule, name, f"the call always fails: {what}", where or e.where)
        val = C.prune(self.S(out.value), self.S(AND(g, out.live)))
        v = same3(C, val, self.S(want), AND(g, out.live))
        if v is True and (strict or C.unsat(AND(self.S(g), self.S(out.live)))):
            lv = imp3(C, self.S(g), self.S(out.live))
            if lv is not True:
                return self.ck.decide(lv, rule, name, "the call fails when not " + brief(out.live, 200), where or self.where(out))
        self.ck.decide(v, rule, name, f"is {self.nice(val)} instead of {self.nice(want)}", where or self.where(out))
        return v

    def rejects(self, rule, name, out, facts=TRUE, none_ok=True):
        """the call fails or answers None"""
        C = self.canon()
        if out.dead:
            return self.ck.ok(rule, name)
        g = AND(out.facts, facts)
        t = C.prune(ITE(out.live, out.value, NONE), g)
        v = same3(C, self.S(t), NONE, self.S(g)) if none_ok else (True if C.unsat(AND(self.S(g), self.S(out.live))) else None if unknown(C, out.live) else False)
        self.ck.decide(v, rule, name, f"answers {self.nice(out.value)} instead of rejecting", self.where(out))

    def nice(self, t):
        return brief(t, 260)

    def where(self, out):
        for e in out.effects:
            if e.where:
                return e.where
        return ""
