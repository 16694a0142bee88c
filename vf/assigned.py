"""
Definite assignment: can a local variable be read on a path on which nothing has assigned it?

A path state carries the set of assigned variables and the outcomes of the tests taken on the path; a test met
again with its operands unchanged has the same outcome, tests of one subject against different constants
exclude each other. A path that needs an unprovable coincidence (a loop that runs zero times, an elif chain
none of whose tests on one subject applies) is marked weak; a read that fails only on weak paths is left
undecided.
"""
import ast
from vf.names import own, bound_in, args_of, targets, FN, COMPS

LIMIT = 400


def norm(t):
    """(key, polarity) of a test"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k, b = norm(t.operand)
        return k, not b
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = t.ops[0]
        flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
        l, r = ast.unparse(t.left), ast.unparse(t.comparators[0])
        for a, b in flip.items():
            if isinstance(o, a):
                return (b.__name__, l, r), False
        return (type(o).__name__, l, r), True
    return ("t", ast.unparse(t)), True


class S:
    __slots__ = ("facts", "bound", "weak")

    def __init__(self, facts, bound, weak=False):
        self.facts, self.bound, self.weak = facts, bound, weak

    def key(self):
        return (self.facts, self.bound, self.weak)

    def bind(self, names):
        names = set(names)
        f = frozenset((k, v, ns) for k, v, ns in self.facts if not (ns & names))
        return S(f, self.bound | names, self.weak)

    def unbind(self, names):
        names = set(names)
        f = frozenset((k, v, ns) for k, v, ns in self.facts if not (ns & names))
        return S(f, self.bound - names, self.weak)

    def val(self, t):
        """outcome of a test known on this path"""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.BoolOp):
            vs = [self.val(x) for x in t.values]
            if isinstance(t.op, ast.And):
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            else:
                if any(v is True for v in vs):
                    return True
                if all(v is False for v in vs):
                    return False
        k, b = norm(t)
        for fk, fv, _ in self.facts:
            if fk == k:
                return fv if b else not fv
            if k[0] in ("Eq", "Is") and fk[0] in ("Eq", "Is") and fk[1] == k[1] and fv and fk[2] != k[2] and const(k[2]) and const(fk[2]):
                return not b
            # truthiness against None, True, False
            if k[0] == "t" and fk[0] in ("Is", "Eq") and fv and fk[1] == k[1] and fk[2] in ("True", "False"):
                return b if fk[2] == "True" else not b
            if fk[0] == "t" and fv and k[0] == "Is" and k[1] == fk[1] and k[2] == "None":
                return not b
            if fk[0] == "Is" and fv and fk[2] == "None" and k[0] == "t" and k[1] == fk[1]:
                return not b
        return None

    def assume(self, t, want):
        """states in which the test has this outcome"""
        v = self.val(t)
        if v is not None:
            return [self] if v == want else []
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not want)
        ns = frozenset(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == want
            k, b = norm(t)
            me = S(self.facts | {(k, want if b else not want, ns)}, self.bound, self.weak)
            if conj:
                out = [me]
                for x in t.values:
                    out = [z for s in out for z in s.assume(x, want)]
                return out
            unk = [x for x in t.values if self.val(x) is None]
            if len(unk) == 1:
                return me.assume(unk[0], want)
            return [me]
        k, b = norm(t)
        return [S(self.facts | {(k, want if b else not want, ns)}, self.bound, self.weak)]


def const(s):
    try:
        ast.literal_eval(s)
        return True
    except Exception:
        return s.replace(".", "").replace("_", "").isupper() or s.split(".")[-1].isupper()


class Flow:
    def __init__(self, fn):
        self.fn = fn
        b, g = bound_in(fn.body)
        self.locals = b | set(args_of(fn))
        self.g = g
        self.bad = {}       # (name, line) -> strong?
        self.reads = 0
        self.seen = set()   # nodes some path reaches
        self.over = False
        self.loops = []

    def run(self):
        self.own = {id(n) for n in own(self.fn.body)}
        s = S(frozenset(), frozenset(args_of(self.fn)))
        self.block(self.fn.body, [s])
        return self.bad

    # ---- states
    def merge(self, ss):
        d = {}
        for s in ss:
            d[s.key()] = s
        ss = list(d.values())
        if len(ss) > LIMIT:
            self.over = True
            e = {}
            for s in ss:
                e[(s.bound, s.weak)] = S(frozenset(), s.bound, s.weak)
            # union of facts lost: later correlations are lost too, so everything from here is weak
            ss = [S(frozenset(), b, True) for (b, w) in e][:LIMIT]
        return ss

    # ---- expressions
    def expr(self, e, ss):
        """reads of an expression; returns the states after it"""
        if e is None:
            return ss
        if ss:
            self.seen.add(id(e))
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, ss)
            return ss
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                ss = self.expr(d, ss)
            return ss
        if isinstance(e, ast.BoolOp):
            cur = ss
            outs = []
            for i, v in enumerate(e.values):
                cur = self.expr(v, cur)
                if i < len(e.values) - 1:
                    nxt = []
                    for s in cur:
                        nxt += s.assume(v, isinstance(e.op, ast.And))
                        outs += s.assume(v, not isinstance(e.op, ast.And))
                    cur = nxt
            # forget the facts: the enclosing test records them
            return self.merge(outs + cur) if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)) else ss
        if isinstance(e, ast.IfExp):
            ss = self.expr(e.test, ss)
            self.expr(e.body, [z for s in ss for z in s.assume(e.test, True)])
            self.expr(e.orelse, [z for s in ss for z in s.assume(e.test, False)])
            return ss
        if isinstance(e, ast.NamedExpr):
            ss = self.expr(e.value, ss)
            return [s.bind([e.target.id]) for s in ss]
        if isinstance(e, COMPS):
            ss = self.expr(e.generators[0].iter, ss)
            inner = set()
            cs = ss
            for i, g in enumerate(e.generators):
                if i:
                    cs = self.expr(g.iter, cs)
                inner |= set(targets(g.target))
                cs = [S(s.facts, s.bound | inner, s.weak) for s in cs]
                for t in g.ifs:
                    cs = self.expr(t, cs)
                    cs = [z for s in cs for z in s.assume(t, True)]
            if isinstance(e, ast.DictComp):
                self.expr(e.key, cs)
                self.expr(e.value, cs)
            else:
                self.expr(e.elt, cs)
            return ss
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                ss = self.expr(c, ss)
            elif isinstance(c, ast.keyword):
                ss = self.expr(c.value, ss)
            elif isinstance(c, ast.comprehension):
                pass
            elif isinstance(c, ast.slice) if hasattr(ast, "slice") and isinstance(ast.slice, type) else False:
                for d in ast.iter_child_nodes(c):
                    if isinstance(d, ast.expr):
                        ss = self.expr(d, ss)
        return ss

    def read(self, n, ss):
        if n.id not in self.locals:
            return
        self.reads += 1
        un = [s for s in ss if n.id not in s.bound]
        if un:
            strong = any(not s.weak for s in un)
            k = (n.id, n.lineno)
            self.bad[k] = self.bad.get(k, False) or strong

    # ---- statements
    def block(self, body, ss):
        for st in body:
            if not ss:
                return ss
            ss = self.stmt(st, self.merge(ss))
        return ss

    def bindt(self, t, ss):
        """store to a target: reads inside it, then the names"""
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.expr):
                        self.expr(c, ss)
        # attribute / item stores: facts on that text are gone
        txt = [ast.unparse(n) for n in ast.walk(t) if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)]
        if txt:
            ss = [S(frozenset((k, v, ns) for k, v, ns in s.facts if not any(x in " ".join(map(str, k)) for x in txt)), s.bound, s.weak) for s in ss]
        nm = list(targets(t))
        return [s.bind(nm) for s in ss] if nm else ss

    def stmt(self, st, ss):
        if isinstance(st, ast.Expr):
            return self.expr(st.value, ss)
        if isinstance(st, ast.Assign):
            ss = self.expr(st.value, ss)
            for t in st.targets:
                ss = self.bindt(t, ss)
            if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant):
                x, v = st.targets[0].id, st.value.value
                ns = frozenset({x})
                add = {(("t", x), bool(v), ns), (("Is", x, "None"), v is None, ns)}
                if v is not None:
                    add.add((("Eq", x, repr(v)), True, ns))
                ss = [S(s.facts | add, s.bound, s.weak) for s in ss]
            return ss
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                ss = self.expr(st.value, ss)
                ss = self.bindt(st.target, ss)
            return ss
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                self.read(st.target, ss)
            else:
                self.bindt(st.target, ss)
            ss = self.expr(st.value, ss)
            return self.bindt(st.target, ss)
        if isinstance(st, ast.Return):
            self.expr(st.value, ss)
            return []
        if isinstance(st, ast.Raise):
            self.expr(st.exc, ss)
            self.expr(st.cause, ss)
            return []
        if isinstance(st, ast.Assert):
            ss = self.expr(st.test, ss)
            self.expr(st.msg, [z for s in ss for z in s.assume(st.test, False)])
            return [z for s in ss for z in s.assume(st.test, True)]
        if isinstance(st, ast.If):
            ss = self.expr(st.test, ss)
            t = [z for s in ss for z in s.assume(st.test, True)]
            f = [z for s in ss for z in s.assume(st.test, False)]
            t = self.block(st.body, t)
            if st.orelse:
                f = self.block(st.orelse, f)
            elif self.chain(st):
                f = [S(s.facts, s.bound, True) for s in f]
            return self.merge(t + f)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            ss = self.expr(st.iter, ss)
            nm = list(targets(st.target))
            zero = [S(s.facts, s.bound, True) for s in ss]
            if self.nonempty(st.iter):
                zero = []
            self.loops.append(([], []))
            cur = self.bindt(st.target, ss)
            end = self.block(st.body, cur)
            brk, cont = self.loops[-1]
            once = self.merge(end + cont)
            # a second round: what an earlier round assigned stays assigned; facts about names the body assigns go
            again = self.block(st.body, self.merge(self.bindt(st.target, once))) if once else []
            brk, cont = self.loops.pop()
            out = self.merge(zero + once + again + cont)
            if st.orelse:
                out = self.block(st.orelse, out)
            return self.merge(out + brk)
        if isinstance(st, ast.While):
            ss = self.expr(st.test, ss)
            forever = isinstance(st.test, ast.Constant) and st.test.value
            zero = [] if forever else [S(z.facts, z.bound, True) for s in ss for z in s.assume(st.test, False)]
            self.loops.append(([], []))
            end = self.block(st.body, [z for s in ss for z in s.assume(st.test, True)])
            brk, cont = self.loops[-1]
            once = self.merge(end + cont)
            if once:
                o2 = self.expr(st.test, once)
                again = self.block(st.body, self.merge([z for s in o2 for z in s.assume(st.test, True)]))
            else:
                again = []
            brk, cont = self.loops.pop()
            out = zero + ([] if forever else [z for s in once + again + cont for z in s.assume(st.test, False)])
            out = self.merge(out)
            if st.orelse:
                out = self.block(st.orelse, out)
            return self.merge(out + brk)
        if isinstance(st, ast.Break):
            if self.loops:
                self.loops[-1][0].extend(ss)
            return []
        if isinstance(st, ast.Continue):
            if self.loops:
                self.loops[-1][1].extend(ss)
            return []
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                ss = self.expr(it.context_expr, ss)
                if it.optional_vars is not None:
                    ss = self.bindt(it.optional_vars, ss)
            return self.block(st.body, ss)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            # states in which an exception may leave the body: before and after each of its statements
            exc = []
            cur = ss
            for b in st.body:
                cur = self.merge(cur)
                if self.may_raise(b):
                    exc += self.inner(b, cur)
                cur = self.stmt(b, cur)
                if not cur:
                    break
            norm_ = self.block(st.orelse, cur) if st.orelse else cur
            exc = self.merge(exc)
            out = list(norm_)
            for h in st.handlers:
                hs = exc
                if h.name:
                    hs = [s.bind([h.name]) for s in hs]
                r = self.block(h.body, hs)
                if h.name:
                    r = [s.unbind([h.name]) for s in r]
                out += r
            if st.finalbody:
                self.block(st.finalbody, self.merge(exc))
                return self.block(st.finalbody, self.merge(out))
            return self.merge(out)
        if isinstance(st, FN):
            for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None] + st.decorator_list:
                ss = self.expr(d, ss)
            return [s.bind([st.name]) for s in ss]
        if isinstance(st, ast.ClassDef):
            return [s.bind([st.name]) for s in ss]
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return [s.bind([a.asname or a.name.split(".")[0] for a in st.names]) for s in ss]
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals:
                        ss = [s.unbind([t.id]) for s in ss]
                else:
                    self.bindt(t, ss)
            return ss
        if type(st).__name__ == "Match":
            ss = self.expr(st.subject, ss)
            out = [S(s.facts, s.bound, True) for s in ss]
            for c in st.cases:
                nm = [n.name for n in ast.walk(c.pattern) if getattr(n, "name", None)]
                out += self.block(c.body, [s.bind(nm) for s in ss])
            return self.merge(out)
        return ss

    def inner(self, b, ss):
        """states in which an exception may leave this statement of a try body"""
        if isinstance(b, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            names = {n.id for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            return ss + [S(s.facts, s.bound | names, True) for s in ss]
        return ss

    def may_raise(self, b):
        return any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.Compare, ast.For, ast.Import, ast.ImportFrom)) for n in ast.walk(b))

    def chain(self, st):
        """an elif chain without else whose tests all look at one subject"""
        subj = set()
        k, _ = norm(st.test)
        return k[0] in ("Eq", "Is", "In") and getattr(st, "_vf_elif", False)

    def nonempty(self, e):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and e.elts:
            return True
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value:
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and all(isinstance(a, ast.Constant) for a in e.args):
            try:
                return len(range(*[a.value for a in e.args])) > 0
            except Exception:
                return False
        return False


def mark_elifs(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n.orelse[0]._vf_elif = True


def analyse(fn):
    mark_elifs(fn)
    f = Flow(fn)
    f.run()
    return f
