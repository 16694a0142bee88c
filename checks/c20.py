"""Arbitrage graphs: edges, amounts, cycles, transports and statistics against their defining relations
(abstract evaluation of the methods on symbolic graphs to rational normal forms)."""
import ast as _a

from checks.c18 import *
from checks.formula import _KEEP
from vf.frame import Frames

RULES = {
    "edge": "an edge's prices, reversal, duplicate, sums and multiples describe the same amounts",
    "transport": "an amount sent along an edge or through parallel edges is multiplied by their price, and recorded once in edge and nodes",
    "path": "a path or cycle multiplies the prices of its steps in the direction of travel",
    "amount": "amounts of one token compute like numbers, amounts of different tokens are never combined",
    "cycle": "a cycle is closed, starts where asked, and its arbitrage result follows from the amounts pushed through it",
    "graph": "edges and nodes are filed as given, and statistics are sums over exactly the edges asked for",
    "reject": "impossible transports and ill-formed edges are rejected and leave no trace",
}
AG = "carbon.tools.arbgraphs"


class Sc:
    """a scene: objects in one state, calls on copies of it"""

    def __init__(self, ck, pos, nonneg=(), extra=()):
        self.ck = ck
        self.f = ctx(ck, pos, nonneg, extra)
        self.I = self.f.I
        self.st = self.f.state()
        self.env = {}
        for x in list(pos) + list(nonneg):
            self.I.settype(x, ("float",))

    def new(self, cls, *a, **kw):
        return self.I.construct(self.I.qual(f"{AG}.{cls}"), list(a), kw, self.st, None)

    def sp(self, e, **kw):
        return self.f.spec(e, **{**self.env, **kw})

    def do(self, src, **names):
        """statements evaluated in the scene itself (set-up)"""
        return self._run(src, names, self.st)

    def ev(self, src, **names):
        """Out of an expression, evaluated on a copy of the scene; .raw is the unfrozen value"""
        s = self.st.copy()
        self.I.effects = []
        self.I.limits.clear()
        self.I.steps = 0
        dead, v = False, NONE
        try:
            v = self._run("return " + src if "return" not in src else src, names, s)
        except Dead:
            dead = True
        self.ck.absorb(self.I)
        o = Out(self.I, s, NONE, AND(*s.guard) if s.guard else TRUE, AND(*self.f.facts), dead)
        o.raw = v
        o.value = NONE if dead else self.I.freeze(v, s)
        return o

    def _run(self, src, names, st):
        names = {**self.env, **names}
        body = "\n".join("    " + l for l in src.strip().splitlines())
        node = _a.parse("def spec(%s):\n    import math\n%s\n" % (", ".join(names), body)).body[0]
        _KEEP.append(node)
        fn = self.I.mkfunc(node, next(iter(self.I.p.mods)), None, None, "spec")
        g = st.guard
        st.guard = ()
        v = self.I.apply(fn, list(names.values()), {}, st, None)
        return v

    def eq(self, rule, name, want, src, **names):
        try:
            o = self.ev(src, **names)
            if isinstance(want, str):
                want = self.sp(want)
            self.f.expect(rule, name, o, want, strict=True)
        except Exception as e:
            self.ck.undecided(rule, name, f"{type(e).__name__}: {e}")

    def same(self, rule, name, want, src, **names):
        """the expression answers this very object"""
        o = self.ev(src, **names)
        if o.dead:
            return self.ck.bad(rule, name, "the call always fails", self.f.where(o))
        self.ck.decide(True if o.raw is want else False if o.raw.op in ("obj", "const", "tuple") and o.live is TRUE else None, rule, name, f"answers {self.f.nice(o.value)}, not the object asked for", self.f.where(o))

    def rejects(self, rule, name, src, none_ok=False, **names):
        try:
            o = self.ev(src, **names)
            self.f.rejects(rule, name, o, none_ok=none_ok)
            return o
        except Exception as e:
            self.ck.undecided(rule, name, f"{type(e).__name__}: {e}")


A, B, Cc, D_, T_, U_, M_, W_, V_, PP, QQ = [sym(x) for x in ("a", "b", "c", "d", "t", "u", "m", "w", "v", "p", "q")]


def edges(ck):
    for inv in (False, True):
        s = Sc(ck, [A, B, Cc, D_, T_, U_])
        n1, n2, n3 = [s.new("Node", const(t)) for t in ("AAA", "BBB", "CCC")]
        e = s.new("Edge", n1, s.sp("1+a", a=A), n2, B, inverse=const(inv), uid=const("id1"))
        e2 = s.new("Edge", n1, Cc, n2, D_, inverse=const(inv))
        e3 = s.new("Edge", n1, Cc, n3, D_)
        e4 = s.new("Edge", n2, Cc, n1, D_)
        cl = s.I.qual(f"{AG}.Edge")
        ct = s.I.getattr(mk("cls", cl), "connection_edge", s.st, None)
        k = s.I.apply(ct, [], dict(node_in=n1, node_out=n2, price=Cc), s.st, None)
        s.env = dict(a=A, b=B, c=Cc, d=D_, t=T_, u=U_, e=e, e2=e2, e3=e3, e4=e4, k=k, n1=n1, n2=n2, n3=n3)
        nm = f"edge{', inverse quote' if inv else ''}"
        pr = "(1+a)/b" if inv else "b/(1+a)"
        for what, want in (("price()", pr), ("p()", pr), ("price(inverse=False)", "b/(1+a)"), ("price(inverse=True)", "(1+a)/b"), ("price_outperin", "b/(1+a)"), ("p_outperin", "b/(1+a)"),
                           ("tkn_in", "'AAA'"), ("tkn_out", "'BBB'"), ("pair()", "'BBB/AAA'" if inv else "'AAA/BBB'"), ("pair(inverse=False)", "'AAA/BBB'"), ("pair(inverse=True)", "'BBB/AAA'"),
                           ("convention()", "'AAA per BBB'" if inv else "'BBB per AAA'"), ("convention(inverse=False)", "'BBB per AAA'"), ("convention(inverse=True)", "'AAA per BBB'"),
                           ("convention_outperin()", "'BBB per AAA'"), ("edgetype", "'amount'"), ("is_amounttype", "True"), ("inverse", str(inv)), ("uid", "'id1'"),
                           ("state.amount_in_remaining", "1+a"), ("has_capacity", "True"), ("state.is_empty", "False")):
            s.eq("edge", f"{nm}: {what}", want, "e." + what)
        for r in ("reverse()", "R()"):
            for what, want in (("amount_in", "b"), ("amount_out", "1+a"), ("inverse", str(not inv)), ("price()", pr), ("price_outperin", "(1+a)/b")):
                s.eq("edge", f"{nm}: {r}.{what}", want, f"e.{r}.{what}")
            s.same("edge", f"{nm}: {r}.node_in", n2, f"e.{r}.node_in")
            s.same("edge", f"{nm}: {r}.node_out", n1, f"e.{r}.node_out")
        for r, ai, ao in (("duplicate()", "1+a", "b"), ("__add__(e2)", "1+a+c", "b+d"), ("__radd__(e2)", "1+a+c", "b+d"), ("__mul__(3)", "3+3*a", "3*b"), ("__rmul__(3)", "3+3*a", "3*b"), ("__add__(0)", "1+a", "b"), ("__radd__(0)", "1+a", "b")):
            for what, want in (("amount_in", ai), ("amount_out", ao), ("inverse", str(inv)), ("price_outperin", f"({ao})/({ai})"), ("state.amount_in_remaining", ai)):
                s.eq("edge", f"{nm}: {r}.{what}", want, f"e.{r}.{what}")
            s.same("edge", f"{nm}: {r}.node_in", n1, f"e.{r}.node_in")
            s.same("edge", f"{nm}: {r}.node_out", n2, f"e.{r}.node_out")
        s.eq("edge", f"{nm}: sum of edges: amount_in", "1+a+2*c", "sum([e, e2, e2]).amount_in")
        s.eq("edge", f"{nm}: sum of edges: amount_out", "b+2*d", "sum([e, e2, e2]).amount_out")
        s.eq("edge", f"{nm}: duplicate keeps the id", "'id1'", "e.duplicate().uid")
        s.rejects("reject", f"{nm}: sum of edges to other nodes", "e + e3")
        s.rejects("reject", f"{nm}: sum of edges from other nodes", "e + e4.R()" if False else "e + e4")
        s.rejects("reject", f"{nm}: sum with a connection", "e + k")
        s.rejects("reject", f"{nm}: sum with a number", "e + 1")
        s.rejects("reject", f"{nm}: negative multiple", "e * (-2)")
        s.rejects("reject", f"{nm}: zero multiple", "e * 0")
    # connections
    for inv in (False, True):
        s = Sc(ck, [PP, QQ, W_, V_, T_])
        n1, n2 = [s.new("Node", const(t)) for t in ("AAA", "BBB")]
        cl = mk("cls", s.I.qual(f"{AG}.Edge"))
        s.env = dict(p=PP, q=QQ, w=W_, v=V_, t=T_, E=cl, n1=n1, n2=n2)
        k = s.do(f"return E.connection_edge(n1, n2, price=p, weight=w, inverse={inv}, uid='id1')")
        k2 = s.do(f"return E.connection_edge(n1, n2, price=q, weight=v, inverse={inv})")
        k3 = s.do(f"return E.connection_edge(n1, n2, inverse={inv})")
        s.env.update(k=k, k2=k2, k3=k3)
        o = "1/p" if inv else "p"
        o2 = "1/q" if inv else "q"
        nm = f"connection{', inverse quote' if inv else ''}"
        for what, want in (("price()", "p"), ("price_outperin", o), ("price(inverse=True)", f"1/({o})"), ("is_amounttype", "False"), ("edgetype", "'connection'"), ("amount_in", "-w"),
                           ("R().price_outperin", f"1/({o})"), ("R().price()", "p"), ("R().inverse", str(not inv)), ("duplicate().price()", "p"), ("uid", "'id1'"), ("inverse", str(inv)),
                           ("transport().amount", o), ("transport(t).amount", f"t*({o})")):
            s.eq("edge", f"{nm}: {what}", want, "k." + what)
        s.same("edge", f"{nm}: node_in", n1, "k.node_in")
        s.same("edge", f"{nm}: node_out", n2, "k.node_out")
        s.same("edge", f"{nm}: transported token", n2, "k.transport(t).node")
        s.eq("edge", f"{nm}: default price", "1", "k3.price()")
        s.eq("edge", f"{nm}: default weight", "-1", "k3.amount_in")
        s.eq("edge", f"{nm}: combined price", f"(w*{o}+v*{o2})/(w+v)", "(k+k2).price_outperin")
        s.rejects("reject", f"{nm}: recording a transaction", "k.transport(t, record=True)")
        s.rejects("reject", f"{nm}: non-positive weight", f"E.connection_edge(n1, n2, price=p, weight=-w, inverse={inv})")
        s.rejects("reject", f"{nm}: token name for the input node", "E.connection_edge('AAA', n2)")
        s.rejects("reject", f"{nm}: token name for the output node", "E.connection_edge(n1, 'BBB')")


def transports(ck):
    """one edge of capacity 2+t+u for b, holding m+2+t+u of the input token"""
    s = Sc(ck, [B, T_, U_, M_])
    n1, n2 = [s.new("Node", const(t)) for t in ("AAA", "BBB")]
    s.env = dict(b=B, t=T_, u=U_, m=M_, n1=n1, n2=n2)
    e = s.new("Edge", n1, s.sp("2+t+u"), n2, B)
    am = [s.new("Amount", T_, n) for n in (n1, n2)]
    s.env.update(e=e, am1=am[0], am2=am[1])
    s.do("n1.state.amount = 2+t+u+m")
    s.do("n2.state.amount = m")
    for nm, arg, amt in (("an amount", "t", "t"), ("an Amount", "am1", "t"), ("the whole capacity", "2+t+u", "2+t+u"), ("no amount given", "", "2+t+u"), ("zero", "0", "0*t")):
        for rec in (False, True):
            call = f"e.transport({arg}{', ' if arg else ''}record={rec})"
            n = f"edge transport of {nm}{', recorded' if rec else ''}"
            s.eq("transport", f"{n}: amount", f"({amt})*b/(2+t+u)", f"{call}.amount")
            s.same("transport", f"{n}: token", n2, f"{call}.node")
            d = amt if rec else "0*t"
            for what, want in (("e.state.amount_in_remaining", f"2+t+u-({d})"), ("n1.state.amount", f"2+t+u+m-({d})"), ("n2.state.amount", f"m+({d})*b/(2+t+u)"), ("e.amount_in", "2+t+u"), ("e.amount_out", "b")):
                s.eq("transport", f"{n}: {what}", want, f"r = {call}\nreturn {what}")
    s.eq("transport", "two recorded transports: remaining", "2+t+u-t-u/2", "r = e.transport(t, record=True)\nq = e.transport(u/2, record=True)\nreturn e.state.amount_in_remaining")
    s.eq("transport", "remaining after reset", "2+t+u", "r = e.transport(t, record=True)\ne.reset_state()\nreturn e.state.amount_in_remaining")
    s.rejects("reject", "transport of another token", "e.transport(am2)")
    s.rejects("reject", "transport above capacity", "e.transport(3+t+u)")
    s.rejects("reject", "transport of a negative amount", "e.transport(-1-t)")
    for nm, pre, arg in (("above the remaining capacity", "e.state.amount_in_remaining = t", "1+t"), ("above the node's holdings", "n1.state.amount = t", "1+t")):
        o = s.rejects("reject", f"recorded transport {nm}", f"{pre}\nreturn e.transport({arg}, record=True)")
        src = f"{pre}\ntry:\n    e.transport({arg}, record=True)\nexcept ValueError:\n    pass\nreturn "
        rem, h1 = ("t", "2+t+u+m") if "remaining" in nm else ("2+t+u", "t")
        s.eq("reject", f"recorded transport {nm} leaves the edge alone", rem, src + "e.state.amount_in_remaining")
        s.eq("reject", f"recorded transport {nm} leaves the input node alone", h1, src + "n1.state.amount")
        s.eq("reject", f"recorded transport {nm} leaves the output node alone", "m", src + "n2.state.amount")
    s.eq("transport", "recorded beyond the holdings when allowed: input node", "-1+0*t", "n1.state.amount = t\nr = e.transport(1+t, record=True, raiseonerror=False)\nreturn n1.state.amount")
    # tracked state
    s.eq("transport", "history of a tracked amount", "(0, 2+t+u+m, t)", "n1.state.amount = t\nreturn tuple(n1.state.amount_.history)")


def graph(ck, p="p"):
    """A->B twice, B->C once, C->A once, B->A once"""
    s = Sc(ck, [A, B, Cc, D_, T_, U_, PP, QQ, M_])
    g = s.new("ArbGraph")
    s.env = dict(a=A, b=B, c=Cc, d=D_, t=T_, u=U_, p=PP, q=QQ, m=M_, G=g)
    s.I.effects = []
    s.do(f"""
G.add_edge('AAA', 1+a, 'BBB', b, uid='e0')
G.add_edge('AAA', 2+c, 'BBB', d, uid='e1', inverse=True)
G.add_edge('BBB', 3*(b+d), 'CCC', u, uid='e2')
G.add_edge('CCC', u, 'AAA', {p}, uid='e3')
G.add_edge('BBB', q, 'AAA', m, uid='e4')
""")
    return s


def graphs(ck):
    s = graph(ck)
    es = [s.ev(f"G.edges[{i}]").raw for i in range(5)]
    ns = [s.ev(f"G.nodes[{i}]").raw for i in range(3)]
    s.env.update(nA=ns[0], nB=ns[1], nC=ns[2])
    inst = {e.key: i for i, e in enumerate(es)}

    def which(name, want, src):
        o = s.ev(src)
        if o.dead:
            return ck.bad("graph", name, "the call always fails", s.f.where(o))
        try:
            ps = s.I.pieces(o.raw, o.st)
        except Exception:
            ps = None
        if ps is None or any(ls or g is not TRUE or x.key not in inst for g, x, ls in ps):
            return ck.undecided("graph", name, "selection not determined")
        got = sorted(inst[x.key] for g, x, ls in ps)
        ck.decide(got == want, "graph", name, f"selects edges {got} instead of {want}", s.f.where(o))

    for i, (ti, to, ai, ao, inv) in enumerate((("AAA", "BBB", "1+a", "b", False), ("AAA", "BBB", "2+c", "d", True), ("BBB", "CCC", "3*(b+d)", "u", False), ("CCC", "AAA", "u", "p", False), ("BBB", "AAA", "q", "m", False))):
        for what, want in (("tkn_in", f"'{ti}'"), ("tkn_out", f"'{to}'"), ("amount_in", ai), ("amount_out", ao), ("inverse", str(inv)), ("ix", str(i)), ("uid", f"'e{i}'")):
            s.eq("graph", f"edge added: {what} of edge {i}", want, f"G.edges[{i}].{what}")
    for i, t in enumerate(("AAA", "BBB", "CCC")):
        s.eq("graph", f"nodes: token {i}", f"'{t}'", f"G.nodes[{i}].tkn")
        s.eq("graph", f"nodes: index {i}", str(i), f"G.nodes[{i}].ix")
        s.same("graph", f"node by token {t}", ns[i], f"G.node_by_tkn('{t}')")
        s.same("graph", f"node by node {t}", ns[i], f"G.n(n{t[0]})")
        s.same("graph", f"node by index {i}", ns[i], f"G.node_by_ix({i})")
        s.same("graph", f"edge by index {i}", es[i], f"G.edge_by_ix({i})")
    s.rejects("reject", "unknown token", "G.node_by_tkn('ZZZ')")
    s.eq("graph", "len", "(5, 3)", "G.len()")
    which("edges A to B", [0, 1], "G.filter_edges('AAA', 'BBB')")
    which("edges A to B by node", [0, 1], "G.filter_edges(nA, nB)")
    which("edges B to A", [4], "G.fe('BBB', 'AAA')")
    which("edges from B", [2, 4], "G.filter_edges('BBB')")
    which("edges to A", [3, 4], "G.filter_edges(node_out='AAA')")
    which("edges at B", [0, 1, 2, 4], "G.filter_edges(node='BBB')")
    which("edges of the pair A/B", [0, 1, 4], "G.filter_edges(pair='AAA/BBB')")
    which("edges of the pair B/A", [0, 1, 4], "G.filter_edges(pair='BBB/AAA')")
    which("edges of the pair A/B one way", [0, 1], "G.fep('AAA/BBB', bothways=False)")
    which("edges B, A both ways", [0, 1, 4], "G.filter_edges('BBB', 'AAA', bothways=True)")
    which("all edges", [0, 1, 2, 3, 4], "G.filter_edges()")
    s.rejects("reject", "pair and node", "G.filter_edges('AAA', pair='AAA/BBB')")
    # transports
    for nm, amt, arg in (("a number", "t*(3+a+c)/(1+t)", "t*(3+a+c)/(1+t)"), ):
        pre = "nA.state.amount = 10+a+c\n"
        x = f"({amt})"
        tot = "(3+a+c)"
        for rec in (False, True):
            call = f"{pre}r = G.transport({arg}, 'AAA', 'BBB', record={rec})\nreturn "
            n = f"graph transport of {nm}{', recorded' if rec else ''}"
            s.eq("transport", f"{n}: per edge", f"((1+a)*{x}/{tot}, (2+c)*{x}/{tot})", call + "r.amounts_in")
            s.eq("transport", f"{n}: out per edge", f"(b*{x}/{tot}, d*{x}/{tot})", call + "r.amounts_out")
            s.eq("transport", f"{n}: amount in", x, call + "r.amount_in.amount")
            s.eq("transport", f"{n}: amount out", f"(b+d)*{x}/{tot}", call + "r.amount_out.amount")
            d = x if rec else "0*t"
            s.eq("transport", f"{n}: input node", f"10+a+c-{d}", call + "nA.state.amount")
            s.eq("transport", f"{n}: output node", f"(b+d)*{d}/{tot}", call + "nB.state.amount")
            s.eq("transport", f"{n}: remaining of edge 0", f"1+a-(1+a)*{d}/{tot}", call + "G.edges[0].state.amount_in_remaining")
            s.eq("transport", f"{n}: remaining of edge 1", f"2+c-(2+c)*{d}/{tot}", call + "G.edges[1].state.amount_in_remaining")
            s.eq("transport", f"{n}: remaining of edge 4", "q", call + "G.edges[4].state.amount_in_remaining")
            which(f"{n}: edges", [0, 1], call + "r.edges")
    cl = mk("cls", s.I.qual(f"{AG}.Amount"))
    s.env["Amount"] = cl
    s.eq("transport", "graph transport of an Amount", "(b+d)/(3+a+c)", "nA.state.amount = 10\nreturn G.transport(Amount(1, nA), 'AAA', 'BBB').amount_out.amount")
    s.rejects("reject", "graph transport of an Amount of another token", "G.transport(Amount(1, nB), 'AAA', 'BBB')")
    s.rejects("reject", "graph transport without an edge", "G.transport(1, 'AAA', 'CCC')")
    s.rejects("reject", "graph transport with an unknown routing", "G.transport(1, 'AAA', 'BBB', routingalgo='foo')")
    # statistics
    st = "nA.state.amount = 10+a+c\nr = G.transport((3+a+c)/4, 'AAA', 'BBB', record=True)\ns = G.edge_statistics('AAA', 'BBB')\nreturn s."
    for what, want in (("len", "2"), ("amount_in.amount", "3+a+c"), ("amount_out.amount", "b+d"), ("amount_in_remaining.amount", "(3+a+c)*3/4"), ("price", "(b+d)/(3+a+c)"), ("utilization", "1/4+0*a"),
                       ("amounts_in", "(1+a, 2+c)"), ("amounts_out", "(b, d)"), ("amounts_in_remaining", "((1+a)*3/4, (2+c)*3/4)"), ("prices", "(b/(1+a), d/(2+c))"), ("utilizations", "(1/4+0*a, 1/4+0*a)")):
        s.eq("graph", f"edge statistics: {what}", want, st + what)
    which("edge statistics: edges", [0, 1], st + "edges")
    s.same("graph", "edge statistics: input token", ns[0], st + "amount_in.node")
    s.same("graph", "edge statistics: output token", ns[1], st + "amount_out.node")
    which("edge statistics of given edges", [0, 1], "G.edge_statistics(edges=G.filter_edges('AAA', 'BBB')).edges")
    s.eq("graph", "edge statistics of given edges: amount", "3+a+c", "G.edge_statistics(edges=G.filter_edges('AAA', 'BBB')).amount_in.amount")
    s.rejects("reject", "edge statistics of edges between different nodes", "G.edge_statistics(edges=G.filter_edges())")
    s.eq("graph", "edge statistics without edges", "None", "G.edge_statistics('AAA', 'CCC')")
    which("edge statistics of a pair, first", [0, 1], "G.edge_statistics(pair='AAA/BBB')[0].edges")
    which("edge statistics of a pair, second", [4], "G.edge_statistics(pair='AAA/BBB')[1].edges")
    st = "G.node_statistics('BBB')."
    for what, want in (("amount_in.amount", "b+d"), ("amount_out.amount", "3*(b+d)+q"), ("amount_out_remaining.amount", "3*(b+d)+q")):
        s.eq("graph", f"node statistics: {what}", want, st + what)
    which("node statistics: edges in", [0, 1], st + "edges_in")
    which("node statistics: edges out", [2, 4], st + "edges_out")
    s.same("graph", "node statistics: node", ns[1], st + "node")
    members2(ck, s, "node statistics: nodes in", {"AAA"}, st + "nodes_in")
    members2(ck, s, "node statistics: nodes out", {"AAA", "CCC"}, st + "nodes_out")
    # states
    s.eq("graph", "reset: edge", "1+a", "nA.state.amount = 10+a+c\nr = G.transport((3+a+c)/4, 'AAA', 'BBB')\nG.reset_state()\nreturn G.edges[0].state.amount_in_remaining")
    s.eq("graph", "reset: node", "0*a", "nA.state.amount = 10+a+c\nr = G.transport((3+a+c)/4, 'AAA', 'BBB')\nG.reset_state()\nreturn nB.state.amount")
    s.eq("graph", "capacity left", "True", "G.has_capacity('AAA', 'BBB')")
    s.eq("graph", "no capacity left", "False", "nA.state.amount = 3+a+c\nr = G.transport(3+a+c, 'AAA', 'BBB')\nreturn G.has_capacity('AAA', 'BBB')")
    # by sign
    for nm, args, want in (("positive x", "'XXX', a, 'YYY', -b", ("XXX", "a", "YYY", "b")), ("negative x", "'XXX', -a, 'YYY', b", ("YYY", "b", "XXX", "a"))):
        for what, w in zip(("tkn_in", "amount_in", "tkn_out", "amount_out"), want):
            s.eq("graph", f"edge by sign, {nm}: {what}", f"'{w}'" if len(w) == 3 else w, f"G.add_edge_dxdy({args}, uid='z')\nreturn G.edges[5].{what}")
        s.eq("graph", f"edge by sign, {nm}: uid", "'z'", f"G.add_edge_dxdy({args}, uid='z')\nreturn G.edges[5].uid")
    s.rejects("reject", "edge by sign, both in", "G.add_edge_dxdy('XXX', 1+a, 'YYY', 1+b)")
    s.rejects("reject", "edge by sign, both out", "G.add_edge_dxdy('XXX', -1-a, 'YYY', -1-b)")
    s.eq("graph", "edge by sign, nothing moved", "5", "G.add_edge_dxdy('XXX', 0, 'YYY', 0)\nreturn len(G.edges)")
    s.rejects("reject", "edge without input", "G.add_edge('XXX', 0, 'YYY', a)")
    s.rejects("reject", "edge without output", "G.add_edge('XXX', a, 'YYY', -a)")
    s.rejects("reject", "connection in an amount graph", "G.add_edge_ct('AAA', 'BBB', price=a)")
    # duplicate
    for cons, n in ((True, 4), (False, 5)):
        d = f"D = G.duplicate(consolidate={cons})\nreturn "
        nm = "consolidated duplicate" if cons else "duplicate"
        s.eq("graph", f"{nm}: edges", str(n), d + "len(D.edges)")
        s.eq("graph", f"{nm}: A to B in", "3+a+c", d + "sum([e.amount_in for e in D.filter_edges('AAA', 'BBB')])")
        s.eq("graph", f"{nm}: A to B out", "b+d", d + "sum([e.amount_out for e in D.filter_edges('AAA', 'BBB')])")
        s.eq("graph", f"{nm}: B to C", "3*(b+d)", d + "sum([e.amount_in for e in D.filter_edges('BBB', 'CCC')])")
        s.eq("graph", f"{nm}: C to A", "p", d + "sum([e.amount_out for e in D.filter_edges('CCC', 'AAA')])")
        s.eq("graph", f"{nm}: B to A", "m", d + "sum([e.amount_out for e in D.filter_edges('BBB', 'AAA')])")
        s.eq("graph", f"{nm}: nodes", "False", d + "D.edges[0].node_in is G.edges[0].node_in")
    s.eq("graph", "duplicate: quote direction", "True", "G.duplicate(consolidate=False).edges[1].inverse")
    s.eq("graph", "duplicate: quote direction of edge 0", "False", "G.duplicate(consolidate=False).edges[0].inverse")
    s.eq("graph", "duplicate: uid", "'e1'", "G.duplicate(consolidate=False).edges[1].uid")
    # from trade vectors
    s.env["AG"] = mk("cls", s.I.qual(f"{AG}.ArbGraph"))
    s.env["CPC"] = mk("cls", s.I.qual(CPC))
    pre = "cc = [CPC.from_kx(k=a, x=b, pair='AAA/BBB', cid='k0'), CPC.from_kx(k=c, x=d, pair='CCC/BBB', cid='k1'), CPC.from_kx(k=c, x=d, pair='CCC/AAA', cid='k2')]\nD = AG.from_ccdxdy(cc, [a, -b, 0], [-c, d, 0], ignorezero=False)\nreturn "
    for src, want in (("len(D.edges)", "2"), ("D.edges[0].tkn_in", "'AAA'"), ("D.edges[0].tkn_out", "'BBB'"), ("D.edges[0].amount_in", "a"), ("D.edges[0].amount_out", "c"), ("D.edges[0].uid", "'k0'"),
                      ("D.edges[1].tkn_in", "'BBB'"), ("D.edges[1].tkn_out", "'CCC'"), ("D.edges[1].amount_in", "d"), ("D.edges[1].amount_out", "b"), ("D.edges[1].uid", "'k1'")):
        s.eq("graph", f"from trade vectors: {src}", want, pre + src)


def members2(ck, s, name, want, src):
    o = s.ev(src)
    o.value = o.raw
    members(ck, s.f, o, name, want)


def amounts(ck):
    s = Sc(ck, [A, B, T_])
    n1, n2 = [s.new("Node", const(t)) for t in ("AAA", "BBB")]
    s.env = dict(a=A, b=B, t=T_)
    x, y, z = s.new("Amount", s.sp("a+t"), n1), s.new("Amount", A, n1), s.new("Amount", B, n2)
    s.env.update(x=x, y=y, z=z)
    for src, want in (("x + y", "a+t+a"), ("x - y", "t"), ("y - x", "-t"), ("x * 3", "3*(a+t)"), ("3 * x", "3*(a+t)"), ("x * b", "b*(a+t)"), ("x / b", "(a+t)/b"), ("-x", "-a-t"), ("+x", "a+t"), ("abs(-x)", "a+t"), ("abs(x)", "a+t"),
                      ("x.__radd__(y)", "a+t+a"), ("x.__rsub__(y)", "-t"), ("x.__rmul__(b)", "b*(a+t)"), ("x.__copy__()", "a+t"), ("x.__deepcopy__({})", "a+t")):
        s.eq("amount", src, want, f"({src}).amount")
        s.same("amount", f"{src}: token", n1, f"({src}).node")
    s.eq("amount", "x / y", "(a+t)/a", "x / y")
    for fn in ("round", "math.floor", "math.ceil", "math.trunc"):
        s.eq("amount", fn, s.ev(f"{fn}(a+t)").value, f"{fn}(x).amount")
    for op, r in (("<", False), ("<=", False), (">", True), (">=", True)):
        s.eq("amount", f"x {op} y", str(r), f"x {op} y")
        s.eq("amount", f"y {op} x", str(not r), f"y {op} x")
        s.eq("amount", f"y {op} y", str("=" in op), f"y {op} y")
        s.rejects("amount", f"different tokens: {op}", f"x {op} z")
        s.rejects("amount", f"amount and number: {op}", f"x {op} 1")
    for op in "+-/":
        s.rejects("amount", f"different tokens: {op}", f"x {op} z")
    for op in "+-":
        s.rejects("amount", f"amount and number: {op}", f"x {op} 1")
        s.rejects("amount", f"number and amount: {op}", f"1 {op} x")
    s.rejects("amount", "product of amounts", "x * y")
    s.same("amount", "tkn", n1, "x.tkn")


def cycles(ck):
    s = graph(ck)
    ns = [s.ev(f"G.nodes[{i}]").raw for i in range(3)]
    s.env.update(nA=ns[0], nB=ns[1], nC=ns[2], Cycle=mk("cls", s.I.qual(f"{AG}.Cycle")), Path=mk("cls", s.I.qual(f"{AG}.Path")))
    s.do("return 0")
    cy = s.do("return Cycle([nA, nB, nC], uid=7, graph=G)")
    pa = s.do("return Path([nA, nB, nC], uid=8)")
    s.env.update(C=cy, P=pa)
    for nm, arg, want in (("", "", "ABCA"), (" from index 1", "start_ix=1", "BCAB"), (" from index 2", "start_ix=2", "CABC"), (" from node B", "start_val=nB", "BCAB")):
        tk = [ch * 3 for ch in want]
        prs = [f"{a}/{b}" for a, b in zip(tk, tk[1:])]
        s.eq("cycle", f"cycle items{nm}", mk("tuple", *[const(t) for t in tk]), f"tuple([n.tkn for n in C.items({arg})])")
        s.eq("cycle", f"cycle pairs{nm}", mk("tuple", *[const(t) for t in prs]), f"tuple([a.tkn + '/' + b.tkn for a, b in C.pairs({arg})])")
        s.eq("cycle", f"cycle slashpairs{nm}", mk("tuple", *[const(t) for t in prs]), f"tuple(C.pairs_s({arg}))")
    s.eq("path", "path items", mk("tuple", *[const(t) for t in ("AAA", "BBB", "CCC")]), "tuple([n.tkn for n in P.items()])")
    s.eq("path", "path pairs", mk("tuple", const("AAA/BBB"), const("BBB/CCC")), "tuple([a.tkn + '/' + b.tkn for a, b in P.pairs()])")
    s.eq("path", "path slashpairs", mk("tuple", const("AAA/BBB"), const("BBB/CCC")), "tuple(P.pairs_s())")
    s.eq("cycle", "length", "3", "len(C)")
    s.rejects("reject", "start index and start node", "C.items(start_ix=1, start_val=nB)")
    # products of prices
    pab, pbc, pca, pba = "(b/(1+a)+d/(2+c))/2", "u/(3*(b+d))", "p/u", "m/q"
    for nm, obj, want, prices, num in (("cycle", "C", f"({pab})*({pbc})*({pca})", f"({pab}, {pbc}, {pca})", "(2, 1, 1)"), ("path", "P", f"({pab})*({pbc})", f"({pab}, {pbc})", "(2, 1)"),
                                       ("reversed path", "Path([nB, nA])", pba, f"({pba},)", "(1,)")):
        s.eq("path", f"price along a {nm}", want, f"G.ptransport({obj}).multiplier")
        s.eq("path", f"step prices along a {nm}", prices, f"tuple(G.ptransport({obj}).prices)")
        s.eq("path", f"edges per step of a {nm}", num, f"tuple(G.ptransport({obj}).numedges)")
    # arbitrage: e0+e1 take 3+a+c for b+d, e2 takes up to 3(b+d), e3 takes u
    src = "r = G.run_arbitrage_cycle(C)\nreturn r."
    out = "p/3"    # (b+d)/(3(b+d)) of u, then the same share of p
    ain = "3+a+c"
    for src_nm, call in (("graph", "G.run_arbitrage_cycle(C)"), ("cycle", "C.run_arbitrage_cycle()"), ("from its first token", "G.run_arbitrage_cycle(C, token='AAA')"), ("cycle.run", "C.run(token='AAA')")):
        for what, want in (("amount_in", ain), ("amount_out", out), ("profit", f"{out}-({ain})"), ("token", "'AAA'"), ("r", f"({out})/({ain})-1"), ("rpcs", f"(({out})/({ain})-1)/3"), ("ppcs", f"({out}-({ain}))/3"), ("length", "3")):
            s.eq("cycle", f"arbitrage, everything fits, {src_nm}: {what}", want, f"{call}.{what}")
    # from B: push 3(b+d) -> u, u -> p, then A->B can take 3+a+c
    for case, pe, ain, out in (("last step too small", "3+a+c+p", "3*(b+d)*(3+a+c)/(3+a+c+p)", "b+d"), ("last step large enough", "(3+a+c)/(1+p)", "3*(b+d)", "(b+d)/(1+p)")):
        z = graph(ck, pe)
        z.env.update(Cycle=s.env["Cycle"])
        for what, want in (("amount_in", ain), ("amount_out", out), ("profit", f"{out}-{ain}"), ("token", "'BBB'")):
            z.eq("cycle", f"arbitrage around B, {case}: {what}", want, f"return G.run_arbitrage_cycle(Cycle([G.nodes[0], G.nodes[1], G.nodes[2]]), token='BBB').{what}")
    # two bottlenecks, one after the other: every step takes half of what the step before delivers
    z = Sc(ck, [A, B, Cc])
    g = z.new("ArbGraph")
    z.env = dict(a=A, b=B, c=Cc, G=g, Cycle=s.env["Cycle"])
    z.do("G.add_edge('AAA', a, 'BBB', 2*b)\nG.add_edge('BBB', b, 'CCC', 3*c)\nG.add_edge('CCC', c, 'AAA', 9*a)")
    for what, want in (("amount_in", "a/6"), ("amount_out", "9*a"), ("profit", "9*a-a/6"), ("r", "53+0*a"), ("rpcs", "53/3+0*a"), ("ppcs", "(9*a-a/6)/3")):
        z.eq("cycle", f"arbitrage, two bottlenecks: {what}", want, f"return G.run_arbitrage_cycle(Cycle([G.nodes[0], G.nodes[1], G.nodes[2]])).{what}")
    s.same("cycle", "arbitrage: cycle", cy, "G.run_arbitrage_cycle(C).cycle")
    s.rejects("reject", "arbitrage around a token that is not in the cycle", "G.run_arbitrage_cycle(C, token='ZZZ', allow_any_token=False)")
    s.eq("cycle", "arbitrage around a token that is not in the cycle, allowed", "'AAA'", "G.run_arbitrage_cycle(C, token='ZZZ').token")


def connections(ck):
    for nm, args, o in (("price", "price=p", "p"), ("inverse price", "price=p, inverse=True", "1/p"), ("out-per-in price", "price_outperin=p", "p")):
        s = Sc(ck, [PP, QQ, W_, T_])
        g = s.new("ArbGraph")
        s.env = dict(p=PP, q=QQ, w=W_, t=T_, G=g)
        s.do(f"G.add_edge_connectiontype('AAA', 'BBB', {args}, weight=w, uid='u')\nG.add_edge_ct('BBB', 'CCC', price=q, symmetric=False)")
        for what, want in (("len(G.edges)", "3"), ("G.edges[0].price_outperin", o), ("G.edges[1].price_outperin", f"1/({o})"), ("G.edges[0].tkn_in", "'AAA'"), ("G.edges[1].tkn_in", "'BBB'"), ("G.edges[1].tkn_out", "'AAA'"),
                           ("G.edges[0].amount_in", "-w"), ("G.edges[1].amount_in", "-w"), ("G.edges[0].price()", "p"), ("G.edges[1].price()", "p"), ("G.edges[2].price_outperin", "q"), ("G.edges[0].uid", "'u'"), ("G.edges[1].uid", "'u-r'"), ("G.is_amounttype", "False")):
            s.eq("graph", f"connection by {nm}: {what}", want, what)
        s.rejects("reject", f"connection by {nm}: amounts in a connection graph", "G.add_edge('AAA', 1, 'BBB', 1)")
        s.rejects("reject", f"connection by {nm}: two prices", "G.add_edge_ct('AAA', 'BBB', price=p, price_outperin=q)")
        s.rejects("reject", f"connection by {nm}: inverse out-per-in price", "G.add_edge_ct('AAA', 'BBB', inverse=True, price_outperin=q)")
        s.rejects("reject", f"connection by {nm}: negative weight", "G.add_edge_ct('AAA', 'BBB', price=p, weight=-w)")
    # curves
    s = Sc(ck, [A, B, Cc, D_])
    s.env = dict(a=A, b=B, c=Cc, d=D_, AG=mk("cls", s.I.qual(f"{AG}.ArbGraph")), CPC=mk("cls", s.I.qual(CPC)), CC=mk("cls", s.I.qual(CC)))
    pre = "D = AG.from_cc(CC([CPC.from_kx(k=a, x=b, pair='AAA/BBB', cid='k0'), CPC.from_kx(k=c, x=d, pair='CCC/BBB', cid='k1')]))\nreturn "
    for src, want in (("len(D.edges)", "4"), ("D.edges[0].tkn_in", "'AAA'"), ("D.edges[0].tkn_out", "'BBB'"), ("D.edges[0].price_outperin", "a/b/b"), ("D.edges[1].price_outperin", "b*b/a"), ("D.edges[2].tkn_in", "'CCC'"),
                      ("D.edges[2].price_outperin", "c/d/d"), ("D.edges[3].price_outperin", "d*d/c"), ("D.edges[3].tkn_out", "'CCC'"), ("D.edges[2].uid", "'k1'")):
        s.eq("graph", f"from curves: {src}", want, pre + src)


def extras(ck):
    """chaining, options passed on, subcycles, lists of arbitrage results, tables"""
    s = graph(ck)
    Frames(s.I)
    ns = [s.ev(f"G.nodes[{i}]").raw for i in range(3)]
    cls = {n: mk("cls", s.I.qual(f"{AG}.{n}")) for n in ("Cycle", "ArbGraph", "Amount", "Node")}
    s.env.update(nA=ns[0], nB=ns[1], nC=ns[2], **cls)
    for src in ("reset_state()", "add_node('ZZZ')", "add_node_obj(Node('ZZZ'))", "add_edge('AAA', a, 'BBB', b)", "add_edge_dxdy('AAA', a, 'BBB', -b)", "add_edge_dxdy('AAA', -a, 'BBB', b)", "add_edge_dxdy('AAA', 0, 'BBB', 0)"):
        s.eq("graph", f"{src} answers the graph", "True", f"G.{src} is G")
    s.eq("graph", "add_edge_ct answers the graph", "True", "K = ArbGraph()\nreturn K.add_edge_ct('AAA', 'BBB', price=a) is K")
    for inv in (True, False):
        s.eq("graph", f"edge by sign, inverse={inv}", str(inv), f"G.add_edge_dxdy('AAA', a, 'BBB', -b, inverse={inv})\nreturn G.edges[5].inverse")
        s.eq("graph", f"edge by sign the other way, inverse={inv}", str(inv), f"G.add_edge_dxdy('AAA', -a, 'BBB', b, inverse={inv})\nreturn G.edges[5].inverse")
    s.eq("graph", "edges are not added twice", "6", "G.add_edge('AAA', a, 'BBB', b)\nreturn len(G.edges)")
    s.eq("graph", "an edge to a known token adds no node", "3", "G.add_edge('AAA', a, 'CCC', b)\nreturn len(G.nodes)")
    s.eq("graph", "an edge to a new token adds a node", "4", "G.add_edge('AAA', a, 'DDD', b)\nreturn len(G.nodes)")
    s.eq("graph", "the new node can be found", "'DDD'", "G.add_edge('AAA', a, 'DDD', b)\nreturn G.node_by_tkn('DDD').tkn")
    s.rejects("reject", "transport of more than the edges take", "nA.state.amount = 100+100*a+100*c\nreturn G.transport(4+a+c, 'AAA', 'BBB')")
    s.rejects("reject", "transport of more than the node holds", "nA.state.amount = (1+a+c)/3\nreturn G.transport((1+a+c)/2, 'AAA', 'BBB')")
    # subcycles
    mkc = "x = Cycle([nA, nB, nC], uid=1)\ny = Cycle([nA, nB], uid=2)\nz = Cycle([nB, nA, nC], uid=3)\nw = Cycle([nC, nA], uid=4)\nreturn "
    for src, want in (("y.is_subcycle_of(x)", True), ("x.is_subcycle_of(y)", False), ("z.is_subcycle_of(x)", False), ("w.is_subcycle_of(x)", True), ("x.is_subcycle_of(x)", True), ("w.is_subcycle_of(y)", False)):
        s.eq("cycle", f"subcycles: {src}", str(want), mkc + src)
    s.eq("cycle", "subcycles of a list", mk("tuple", const(2), const(4)), mkc + "tuple([q_.uid for q_ in x.filter_subcycles([y, z, w])])")
    s.eq("cycle", "subcycles: one cycle", mk("tuple", const(2)), mkc + "tuple([q_.uid for q_ in x.filter_subcycles(y)])")
    for i in (1, 2, 3):
        s.eq("cycle", f"cycle by id {i}", str(i), mkc + f"Cycle.byid([x, y, z], {i}).uid")
    s.eq("cycle", "cycle by unknown id", "None", mkc + "Cycle.byid([x, y, z], 9)")
    # lists of arbitrage results
    out, ain = "p/3", "3+a+c"
    two, tin = None, None
    pre = "x = Cycle([nA, nB, nC], uid=1, graph=G)\ny = Cycle([nA, nB], uid=2, graph=G)\nR = G.run_arbitrage_cycles([x, y]%s)\nreturn "
    single = {u: {w: s.ev(f"x = Cycle({c}, uid={u}, graph=G)\nreturn G.run_arbitrage_cycle(x).{w}").value for w in ("profit", "amount_in", "amount_out", "token", "r", "rpcs", "ppcs", "length")}
              for u, c in ((1, "[nA, nB, nC]"), (2, "[nA, nB]"))}
    for nm, fmt, get in (("by default", "", "R[{i}].{w}"), ("as a tuple", ", format=G.ACRET_TUPLE", "R[{i}].{w}"), ("as a generator", ", format=G.ACRET_GEN", "list(R)[{i}].{w}"), ("as dicts", ", format=G.ACRET_DICTS", "R[{i}]['{w}']"),
                         ("as a table", ", format=G.ACRET_DF", "R.loc[{u}, '{w}']")):
        s.eq("cycle", f"arbitrage results {nm}: number", "2", (pre % fmt) + ("len(list(R))" if "GEN" in fmt else "len(R)"))
        for i, u in enumerate((1, 2)):
            for w, want in single[u].items():
                s.eq("cycle", f"arbitrage results {nm}: {w} of cycle {u}", want, (pre % fmt) + get.format(i=i, w=w, u=u))
    s.eq("cycle", "arbitrage results as dicts: tokens", "'AAA, BBB, CCC'", (pre % ", format=G.ACRET_DICTS") + "R[0]['tokens']")
    s.eq("cycle", "arbitrage results as dicts: cycle id", "2", (pre % ", format=G.ACRET_DICTS") + "R[1]['uid']")
    s.eq("cycle", "arbitrage results as dicts: without the cycle", "False", (pre % ", format=G.ACRET_DICTS") + "'cycle' in R[0]")
    s.eq("cycle", "arbitrage results: starting token", "'BBB'", (pre % ", token='BBB'") + "R[1].token")
    s.eq("cycle", "formatted results: table by default", single[1]["profit"], (pre % "") .replace("return ", "F_ = G.run_arbitrage_cyclesf(R)\nreturn ") + "F_.loc[1, 'profit']")
    s.rejects("reject", "arbitrage results in an unknown format", (pre % ", format='foo'") + "R")
    # tables of edges
    rows = [("AAA", "BBB", "1+a", "b"), ("AAA", "BBB", "2+c", "d"), ("BBB", "CCC", "3*(b+d)", "u"), ("CCC", "AAA", "u", "p"), ("BBB", "AAA", "q", "m")]
    s.eq("graph", "table of edges: number", "5", "len(G.edgedf(consolidated=False))")
    for i, (ti, to, ai, ao) in enumerate(rows):
        for col, want in (("tkn_in", f"'{ti}'"), ("tkn_out", f"'{to}'"), ("amount_in", ai), ("amount_out", ao)):
            s.eq("graph", f"table of edges: {col} of edge {i}", want, f"G.edgedf(consolidated=False).loc['e{i}', '{col}']")
    s.eq("graph", "table of given edges: number", "2", "len(G.edgedf(G.edges[1:3], consolidated=False))")
    s.eq("graph", "table of given edges: amount", "2+c", "G.edgedf(G.edges[1:3], consolidated=False).loc['e1', 'amount_in']")
    # prices between nodes
    K = "K = ArbGraph()\nK.add_edge_ct('AAA', 'BBB', price=a)\nK.add_edge_ct('BBB', 'CCC', price=b)\nreturn "
    kb = "tuple(K.pricetable(%sasdf=False)['labels'])"
    for what, arg, want in (("of all nodes", "", ("AAA", "BBB", "CCC")), ("of given nodes", "[K.nodes[1]], ", ("BBB",)), ("without a node", "exclude=[K.nodes[1]], ", ("AAA", "CCC")),
                            ("of given nodes without one", "[K.nodes[0], K.nodes[1]], exclude=[K.nodes[1]], ", ("AAA",))):
        s.eq("graph", f"price table {what}: tokens", mk("tuple", *map(const, want)), K + kb % arg)
    s.eq("graph", "price table of one node", "1", K + "K.pricetable([K.nodes[1]], asdf=False)['data'][0][0]")
    s.rejects("reject", "a price table of an amount graph", "G.pricetable(asdf=False)")
    # consolidated tables of edges
    con = "G.add_edge('AAA', m, 'BBB', q, uid='e9')\nreturn G.edgedf()"
    for ix, ai, ao in (("('AAA/BBB', 'AAA', 'BBB')", "3+a+c+m", "b+d+q"), ("('AAA/BBB', 'BBB', 'AAA')", "q", "m")):
        for col, want in (("amount_in", ai), ("amount_out", ao)):
            s.eq("graph", f"consolidated edges: {col} of {ix}", want, f"{con}.loc[{ix}, '{col}']")
    s.eq("graph", "consolidated edges: number", "4", con.replace("G.edgedf()", "len(G.edgedf())"))
    s.eq("graph", "consolidated edges of given edges", "2+c", "G.edgedf(G.edges[1:3]).loc[('AAA/BBB', 'AAA', 'BBB'), 'amount_in']")
    C = """
C = ArbGraph()
C.add_edge_ct('AAA', 'BBB', price=a, weight=p, symmetric=False)
C.add_edge_ct('BBB', 'CCC', price=b, weight=q)
C.add_edge_ct('BBB', 'CCC', price=c, weight=m)
C.add_edge_ct('DDD', 'CCC', price=d, weight=u, symmetric=False)
return """
    s.eq("graph", "consolidated connections: number", "3", C + "len(C.edgedf())")
    for pair, col, want in (("AAA/BBB", "n", "p"), ("AAA/BBB", "price", "a"), ("BBB/CCC", "n", "q+m"), ("BBB/CCC", "n_rev", "q+m"), ("BBB/CCC", "price", "(b+c)/2"), ("CCC/DDD", "n_rev", "u"), ("CCC/DDD", "price", "1/d")):
        s.eq("graph", f"consolidated connections: {col} of {pair}", want, C + f"C.edgedf().loc['{pair}', '{col}']")
    for pair, col in (("AAA/BBB", "n_rev"), ("CCC/DDD", "n")):
        s.eq("graph", f"consolidated connections: no {col} of {pair}", "None", C + f"C.edgedf().loc['{pair}', '{col}']")
    for i, (pair, n, rev, oi, pr) in enumerate((("AAA/BBB", "p", False, "a", "a"), ("BBB/CCC", "q", False, "b", "b"), ("BBB/CCC", "q", True, "1/b", "b"), ("BBB/CCC", "m", False, "c", "c"), ("BBB/CCC", "m", True, "1/c", "c"),
                                                ("CCC/DDD", "u", True, "d", "1/d"))):
        for col, want in (("pair", f"'{pair}'"), ("n", n), ("is_reverse", str(rev)), ("price_outin", oi), ("price", pr)):
            s.eq("graph", f"table of connections: {col} of edge {i}", want, C + f"C.edgedf(consolidated=False).loc[{i}, '{col}']")
    # views of results
    st = "S = G.edge_statistics('AAA', 'BBB')\nreturn "
    s.eq("graph", "fields of a result", mk("tuple", const("len"), const("edges")), st + "tuple(S.asdict(include=['len', 'edges']).keys())")
    s.eq("graph", "fields left out of a result", "False", st + "'edges' in S.asdict(exclude=['edges'])")
    s.eq("graph", "a result as a tuple", "2", st + "S.astuple(include=['len'])[0]")
    s.eq("amount", "amounts are formatted with their token", "'2.50 AAA'", "format(Amount(2.5, nA), '.2f')")


def main():
    ck = Check("C20", "Arbitrage-graph amounts, prices and reversals are consistent", RULES, floor=150,
               assumptions=["real arithmetic in place of floating point"])
    for fn in (edges, transports, amounts, graphs, cycles, connections, extras):
        try:
            fn(ck)
        except Exception as e:
            ck.undecided("analysis", fn.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
