"""Entry-point set-ups shared by the checks."""
from .interp import *
from .algebra import Canon, Undecided
from .project import Project

_P = [None]


def project():
    if _P[0] is None:
        _P[0] = Project()
    return _P[0]


MODES = ("exact", "fast", "alpha")


def new_interp(**kw):
    p = project()
    I = Interp(p, Config(**kw))
    return I


class TradeRun:
    """abstract run of one trade request on a simulator with an arbitrary order book"""

    def __init__(self, mode, method, args=None, facts=(), ctor=None, opaque=("match_by_src", "match_by_target"), amt=None, pos=None, raiseonerror=TRUE, types=None):
        I = self.I = new_interp(opaque=set(opaque), ident_methods={"upper"})
        st = self.st = I.state()
        for t, c in (types or {}).items():
            I.settype(t, ("cls", I.qual(c)))
        self.ORDERS, self.TRADES = sym("ORDERS"), sym("TRADES")
        I.settype(self.ORDERS, ("dict", ("int",), ("cls", I.qual("Order"))))
        I.settype(self.TRADES, ("dict", ("str",), None))
        c = {"matching_method": const(mode), "raiseonerror": raiseonerror}
        c.update(ctor or {})
        sim = self.sim = I.construct(I.qual("CarbonSimulatorUI"), [], c, st, None)
        st.heap[(sim, "f", "orders")] = self.ORDERS
        st.heap[(sim, "f", "trades")] = self.TRADES
        st.heap[(sim, "f", "numtrades")] = sym("NUMTRADES")
        self.PAIR = sym("PAIR")
        I.settype(self.PAIR, ("cls", I.qual("CarbonPair")))
        self.TKN, self.AMT = sym("TKN"), sym("AMT")
        I.settype(self.TKN, ("str",))
        I.effects.clear()
        I.limits.clear()
        facts = list(facts) + [truth(self.PAIR)]
        for f in facts:
            st.push(f)
        st.guard = ()
        self.facts = AND(*facts)
        a = {"pair": self.PAIR}
        a.update(args or {})
        self.result = None
        self.dead = False
        try:
            self.result = I.call_method(sim, method, pos if pos is not None else [self.TKN, amt if amt is not None else self.AMT], a, st)
        except Dead:
            self.dead = True
        self.effects = I.effects
        self.calls = [e for e in self.effects if e.kind == "opaque_call" and e.key.split(".")[-1] in ("match_by_src", "match_by_target")]

    def order_effects(self):
        """writes to non-fresh orders or to the order book"""
        out = []
        for e in self.effects:
            if e.kind not in ("setattr", "setitem", "delitem", "delattr", "mutcall"):
                continue
            if e.base is None:
                continue
            if self.is_order_place(e.base):
                out.append(e)
        return out

    def is_order_place(self, b):
        if b is self.ORDERS:
            return True
        if b.op in ("obj",):
            return False
        ty = self.I.cls_of(b)
        if ty is not None:
            return self.I.p.is_subclass(ty, self.I.p.classes[self.I.qual("Order")])
        return contains(b, self.ORDERS) and b.op in ("item", "elem", "attr", "last", "first")

    # ------------------------------------------------------------------ derived views
    def canon(self, positive=()):
        """canonicaliser knowing the order-book invariant: the order filed under k has id k"""
        C = Canon(self.I, positive=positive)
        O = self.ORDERS

        def rule(t):
            if t.op == "attr" and t.args[1] == "id" and t.args[0].op == "item" and t.args[0].args[0] is O:
                return t.args[0].args[1]
            return t
        C.rule = rule
        return C

    def fields(self, v):
        """entries of a dict value at the end of the run: {key: value term}"""
        c = self.I.content(v, self.st)
        out = {}
        if c is None or c.op != "dict":
            return None
        for kv in c.args:
            if kv.op != "kv" or kv.args[0].op != "const":
                return None
            val = kv.args[1]
            f = self.I.freeze(val, self.st)
            if f.op == "list" and len(f.args) == 1 and f.args[0].op == "seg" and not f.args[0].args[2].args and f.args[0].args[1] is TRUE:
                f = f.args[0].args[0]
            out[cval(kv.args[0])] = f
        return out

    def rows(self):
        """trade-log rows: [(effect, {column: value})], per-route rows have a loop"""
        out = []
        for e in self.effects:
            if e.kind == "setitem" and e.base is self.TRADES:
                f = self.fields(e.value) if e.value.op == "obj" else None
                if f is not None:
                    out.append((e, f))
        return out

    def route_row(self):
        rs = [(e, f) for e, f in self.rows() if e.loops]
        return rs[0] if len(rs) == 1 else None

    def total_row(self):
        rs = [(e, f) for e, f in self.rows() if not e.loops]
        return rs[0] if len(rs) == 1 else None

    def router_call(self):
        """(function, {argument: value}, list of orders offered) of the matcher call"""
        if len(self.calls) != 1:
            return None
        R = self.calls[0].value
        a = {k.args[0]: k.args[1] for k in R.args if isinstance(k, T) and k.op == "kw"}
        new = a.get("self")
        orders = None
        if new is not None and new.op == "new":
            for k in new.args:
                if isinstance(k, T) and k.op == "kw" and k.args[0] == "orders":
                    orders = k.args[1]
        return R, a, orders

    def field(self, base, name):
        """value of a member of an order before the trade"""
        s = State({}, {}, (), frozenset(), ())
        sv = self.I.effects
        self.I.effects = []
        try:
            return self.I.getattr(base, name, s, None)
        finally:
            self.I.effects = sv

    def eval(self, obj, name, *args, **kw):
        """value of a pure method/property in the initial state"""
        s = State({}, {}, (), frozenset(), ())
        sv = self.I.effects
        self.I.effects = []
        try:
            v = self.I.getattr(obj, name, s, None)
            if v.op in ("bound", "func"):
                v = self.I.apply(v, list(args), kw, s, None)
            return self.I.freeze(v, s)
        finally:
            self.I.effects = sv

    def path(self, obj, *names):
        """value of a chain of pure members, e.g. pair.reverse.pair_iso"""
        s = State({}, {}, (), frozenset(), ())
        sv = self.I.effects
        self.I.effects = []
        try:
            for n in names:
                obj = self.I.getattr(obj, n, s, None)
                if obj.op in ("bound", "func"):
                    obj = self.I.apply(obj, [], {}, s, None)
            return self.I.freeze(obj, s)
        finally:
            self.I.effects = sv


def final_value(effects, base_same, key, init):
    """fold of the writes to one place, in program order"""
    v = init
    for e in effects:
        if e.kind == "setattr" and e.key == key and base_same(e.base):
            v = ITE(e.guard, e.value, v)
    return v


def cls_named(name):
    p = project()
    c = p.by_name(name)
    if isinstance(c, (list, tuple)):
        c = c[0] if c else None
    return c


def callables(cls, inherited=False):
    """[(name, kind, node)] of the functions and properties a class defines"""
    import ast
    out = []
    for n, v in cls.members.items():
        kind, node = v[0], v[1]
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.append((n, kind, node))
    return out


def required(kind, node):
    """names of the parameters without default (receiver excluded)"""
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if kind != "static" and ps:
        ps = ps[1:]
        nd = len(a.posonlyargs) + len(a.args) - 1
    else:
        nd = len(ps)
    k = nd - len(a.defaults)
    req = ps[:max(k, 0)]
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return req


class AddRun:
    """abstract run of an order-creation request on a simulator with an arbitrary order book

    `given` maps option names to terms; an option not in `given` is left at its default.
    Options given as symbols are assumed to be numbers (not None)."""

    def __init__(self, method, side, given, ctor=None, numeric=True, facts=(), opaque=()):
        I = self.I = new_interp(ident_methods={"upper"}, opaque=set(opaque))
        st = self.st = I.state()
        c = {"pair": sym("P0"), "raiseonerror": TRUE}
        c.update(ctor or {})
        sim = self.sim = I.construct(I.qual("CarbonSimulatorUI"), [], c, st, None)
        self.ORDERS = sym("ORDERS")
        I.settype(self.ORDERS, ("dict", ("int",), ("cls", I.qual("Order"))))
        st.heap[(sim, "f", "orders")] = self.ORDERS
        self.PAIR = sym("PAIR")
        I.settype(self.PAIR, ("cls", I.qual("CarbonPair")))
        I.effects.clear()
        I.limits.clear()
        s0 = State({}, {}, (), frozenset(), ())
        self.tkn = {"base": I.getattr(self.PAIR, "tknb", s0, None), "quote": I.getattr(self.PAIR, "tknq", s0, None)}
        self.distinct = AND(NOT(EQ(self.tkn["base"], self.tkn["quote"])), NOT(EQ(self.tkn["quote"], self.tkn["base"])))
        fs = [truth(self.PAIR), self.distinct, NOT(EQ(self.tkn["base"], NONE)), NOT(EQ(self.tkn["quote"], NONE))]
        self.syms = [v for v in given.values() if v.op == "sym"]
        if numeric:
            fs += [NOT(EQ(v, NONE)) for v in self.syms]
        fs += list(facts)
        for f in fs:
            st.push(f)
        st.guard = ()
        self.facts = AND(*fs)
        self.side = side
        tkn = self.tkn[side] if side in self.tkn else side
        self.TKN = tkn
        a = {"pair": self.PAIR}
        a.update(given)
        self.result, self.dead = None, False
        try:
            self.result = I.call_method(sim, method, [tkn], a, st)
        except Dead:
            self.dead = True
        self.effects = I.effects
        self.live = AND(*st.guard) if st.guard else TRUE

    def stores(self):
        """writes that file something in the order book"""
        return [e for e in self.effects if e.kind == "setitem" and e.base is self.ORDERS]

    def order_effects(self):
        out = []
        for e in self.effects:
            if e.kind not in ("setattr", "setitem", "delitem", "delattr", "mutcall") or e.base is None:
                continue
            if e.base is self.ORDERS:
                out.append(e)
            elif e.base.op != "obj" and contains(e.base, self.ORDERS) and e.base.op in ("item", "elem", "attr", "last", "first"):
                out.append(e)
        return out

    def field(self, o, name):
        return self.I.getattr(o, name, self.st, None)

    def canon(self, positive=()):
        return Canon(self.I, positive=list(positive))
