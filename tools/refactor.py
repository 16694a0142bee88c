"""rewrites every source file of a copy of the repository with one behaviour-preserving transformation
(false-alarm test of the checks: they have to stay quiet on the result).

usage: refactor.py NAME SRC DST   |   refactor.py list"""
import ast
import copy
import os
import shutil
import sys

SIMPLE = (ast.Name, ast.Attribute, ast.Constant)


def fresh(fn, base):
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 0
    while f"{base}{i}" in used:
        i += 1
    return f"{base}{i}"


class Fn(ast.NodeTransformer):
    """visits function bodies, keeping track of the enclosing function"""
    def __init__(self):
        self.fn = []
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n)
        f, self.fn = self.fn, []
        self.generic_visit(n)
        self.fn = f
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return self.function(n)

    def function(self, n):
        return n


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fn))


class RetVar(Fn):
    """return expr  ->  r = expr; return r"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, SIMPLE) or not self.fn:
            return n
        v = fresh(self.fn[-1], "_res")
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]


class SwapIf(Fn):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.fn:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class GuardElse(Fn):
    """if c: ...return/raise; rest  ->  if c: ...return/raise else: rest"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def function(self, n):
        if not is_gen(n):
            n.body = self.block(n.body)
        return n


class UnElse(Fn):
    """if c: ...return else: B  ->  if c: ...return ; B"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            o = n.orelse
            n.orelse = []
            return [n] + o
        return n


class CompLoop(Fn):
    """x = [e for v in it if c]  ->  x = []; for v in it: if c: x.append(e)   (single generator, plain names, no clash)"""
    def expand(self, n, target):
        c = n.value
        g = c.generators[0]
        fn = self.fn[-1]
        outer = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
        ren = {}
        for t in ast.walk(g.target):
            if isinstance(t, ast.Name):
                ren[t.id] = fresh(fn, "_" + t.id)

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.Name(ren[x.id], x.ctx) if x.id in ren else x
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for y in [c.elt if not isinstance(c, ast.DictComp) else c.value] + g.ifs for x in ast.walk(y)):
            return None
        elt = R().visit(copy.deepcopy(c.elt))
        tgt = R().visit(copy.deepcopy(g.target))
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(target, ast.Load()), "append", ast.Load()), [elt], []))]
        for i in reversed(g.ifs):
            body = [ast.If(R().visit(copy.deepcopy(i)), body, [])]
        return [ast.Assign([ast.Name(target, ast.Store())], ast.List([], ast.Load())), ast.For(tgt, g.iter, body, [])]

    def visit_Assign(self, n):
        if self.fn and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and len(n.targets) == 1:
            v = fresh(self.fn[-1], "_lst")
            r = self.expand(n, v)
            if r:
                return r + [ast.Assign(n.targets, ast.Name(v, ast.Load()))]
        return n

    def visit_Return(self, n):
        if self.fn and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            v = fresh(self.fn[-1], "_lst")
            r = self.expand(n, v)
            if r:
                return r + [ast.Return(ast.Name(v, ast.Load()))]
        return n


class CompMap(Fn):
    """[e for v in it]  ->  list(map(lambda v: e, it))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if self.fn and len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name):
            return ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [
                ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt), g.iter], [])], [])
        return n


def assigned(nodes):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


class ForIndex(Fn):
    """for v in it: body  ->  seq = list(it); i = 0; while i < len(seq): v = seq[i]; i += 1; body   (no else)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn or n.orelse:
            return n
        s, i = fresh(self.fn[-1], "_seq"), fresh(self.fn[-1], "_i")
        # unique per loop
        self.k = getattr(self, "k", 0) + 1
        s, i = f"{s}_{self.k}", f"{i}_{self.k}"
        N = lambda x, c=ast.Load: ast.Name(x, c())
        return [ast.Assign([N(s, ast.Store)], ast.Call(N("list"), [n.iter], [])), ast.Assign([N(i, ast.Store)], ast.Constant(0)),
                ast.While(ast.Compare(N(i), [ast.Lt()], [ast.Call(N("len"), [N(s)], [])]),
                          [ast.Assign([n.target], ast.Subscript(N(s), N(i), ast.Load())), ast.AugAssign(N(i, ast.Store), ast.Add(), ast.Constant(1))] + n.body, [])]


class ForRange(Fn):
    """for v in it: body -> seq = list(it); for i in range(len(seq)): v = seq[i]; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn:
            return n
        self.k = getattr(self, "k", 0) + 1
        s, i = f"{fresh(self.fn[-1], '_seq')}_{self.k}", f"{fresh(self.fn[-1], '_i')}_{self.k}"
        N = lambda x, c=ast.Load: ast.Name(x, c())
        return [ast.Assign([N(s, ast.Store)], ast.Call(N("list"), [n.iter], [])),
                ast.For(N(i, ast.Store), ast.Call(N("range"), [ast.Call(N("len"), [N(s)], [])], []),
                        [ast.Assign([n.target], ast.Subscript(N(s), N(i), ast.Load()))] + n.body, n.orelse)]


class Ternary(Fn):
    """v = a if c else b -> if c: v = a else: v = b ; return likewise"""
    def visit_Assign(self, n):
        if self.fn and isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if self.fn and isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n


class UnTernary(Fn):
    """if c: return a [else:] return b  -> return a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.orelse[0], ast.Return) and n.body[0].value and n.orelse[0].value:
            return ast.Return(ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        if self.fn and len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) and \
                ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]) and len(n.body[0].targets) == 1 and isinstance(n.body[0].targets[0], ast.Name):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class SplitAnd(Fn):
    """if a and b: X (no else) -> if a: if b: X ; if a or b: return -> if a: ..; if b: .."""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        if self.fn and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(v, copy.deepcopy(n.body), []) for v in n.test.values]
        return n


class DeMorgan(Fn):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Chain(Fn):
    """a < b < c -> a < b and b < c (simple middle operands)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], SIMPLE):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


class FlipCmp(Fn):
    """a < b -> b > a, for operands without calls"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.fn and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE) and not any(isinstance(x, ast.Call) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class IsNot(Fn):
    """not x is None <-> x is not None, not a in b <-> a not in b, not a == b -> a != b kept"""
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            o = n.operand
            m = {ast.Is: ast.IsNot, ast.In: ast.NotIn}.get(type(o.ops[0]))
            if m:
                return ast.Compare(o.left, [m()], o.comparators)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.IsNot: ast.Is, ast.NotIn: ast.In}.get(type(n.ops[0]))
            if m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m()], n.comparators))
        return n


class Impl(Fn):
    """def f(self, ...): body  ->  def f(self, ...): return self._f_impl(...)   (methods and functions without closures)"""
    def visit_ClassDef(self, n):
        self.cls.append(n)
        f, self.fn = self.fn, []
        self.generic_visit(n)
        out = []
        for s in n.body:
            out += self.split(s, n) if isinstance(s, ast.FunctionDef) else [s]
        n.body = out
        self.fn = f
        self.cls.pop()
        return n

    def split(self, s, c):
        a = s.args
        if s.decorator_list or s.name.startswith("__") or is_gen(s) or a.posonlyargs or not a.args or a.args[0].arg != "self" or \
                any(isinstance(x, (ast.Nonlocal, ast.Global)) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for x in ast.walk(s)):
            return [s]
        doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str) else []
        rest = s.body[len(doc):]
        if not rest:
            return [s]
        name = f"{s.name if s.name.startswith('_') else '_' + s.name}{'_' * s.name.startswith('_')}_impl"
        if any(isinstance(x, ast.FunctionDef) and x.name == name for x in c.body):
            return [s]
        N = lambda x: ast.Name(x, ast.Load())
        args = [N(x.arg) for x in a.args[1:]]
        if a.vararg:
            args.append(ast.Starred(N(a.vararg.arg), ast.Load()))
        kws = [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, N(a.kwarg.arg)))
        inner = ast.arguments([], [ast.arg(x.arg) for x in a.args], ast.arg(a.vararg.arg) if a.vararg else None, [ast.arg(x.arg) for x in a.kwonlyargs], [None for _ in a.kwonlyargs], ast.arg(a.kwarg.arg) if a.kwarg else None, [])
        impl = ast.FunctionDef(name, inner, rest, [], None)
        s.body = doc + [ast.Return(ast.Call(ast.Attribute(N("self"), name, ast.Load()), args, kws))]
        return [impl, s]


class Rename(Fn):
    """renames local variables"""
    def function(self, n):
        if any(isinstance(x, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not n for x in ast.walk(n)) or \
                any(isinstance(x, ast.Name) and x.id in ("locals", "eval", "exec") for x in ast.walk(n)):
            return n
        params = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
        loc = (assigned(n.body) | {h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler) and h.name}) - params
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(n)):
            loc -= {a.asname or a.name.split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
            elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_v"
        return n


class Hoist(Fn):
    """f(g(x), h) as a statement's outermost call: arguments into locals first (left to right)"""
    def hoist(self, call, out):
        for i, a in enumerate(call.args):
            if not isinstance(a, SIMPLE + (ast.Starred, ast.Lambda)):
                self.k = getattr(self, "k", 0) + 1
                v = f"_arg_{self.k}"
                out.append(ast.Assign([ast.Name(v, ast.Store())], a))
                call.args[i] = ast.Name(v, ast.Load())
        if all(k.arg for k in call.keywords):
            for k in call.keywords:
                if not isinstance(k.value, SIMPLE + (ast.Lambda,)):
                    self.k = getattr(self, "k", 0) + 1
                    v = f"_arg_{self.k}"
                    out.append(ast.Assign([ast.Name(v, ast.Store())], k.value))
                    k.value = ast.Name(v, ast.Load())

    def stmt(self, n):
        v = n.value
        if self.fn and isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)) and not any(isinstance(a, ast.Starred) for a in v.args):
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(v)):
                return n
            out = []
            self.hoist(v, out)
            return out + [n]
        return n
    visit_Assign = visit_Return = visit_Expr = lambda self, n: self.stmt(n) if n.value is not None else n


class KwPos(Fn):
    """f"..{x}.." -> "..{}..".format(x) for plain f-strings"""
    def visit_JoinedStr(self, n):
        if self.fn and all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1) for v in n.values):
            s = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
        return n


def _plain(n):
    return all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1) for v in n.values)


class StrCat(Fn):
    """f"..{x}.." -> ".." + str(x) + ".." """
    def visit_JoinedStr(self, n):
        if not (self.fn and _plain(n) and len(n.values) > 1):
            return n
        out = ast.Constant("") if not isinstance(n.values[0], ast.Constant) else None
        for v in n.values:
            v = v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], [])
            out = v if out is None else ast.BinOp(out, ast.Add(), v)
        return out


class Percent(Fn):
    """f"..{x}.." -> "..%s.." % (x,)"""
    def visit_JoinedStr(self, n):
        if not (self.fn and _plain(n)):
            return n
        s = "".join(v.value.replace("%", "%%") if isinstance(v, ast.Constant) else "%s" for v in n.values)
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple([v.value for v in n.values if isinstance(v, ast.FormattedValue)], ast.Load()))


class StrJoin(Fn):
    """f"..{x}.." -> "".join(["..", str(x), ".."])"""
    def visit_JoinedStr(self, n):
        if not (self.fn and _plain(n)):
            return n
        return ast.Call(ast.Attribute(ast.Constant(""), "join", ast.Load()),
                        [ast.List([v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], []) for v in n.values], ast.Load())], [])


class DictCall(Fn):
    """{'a': x} <-> dict(a=x)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.fn and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and k.value not in ("None", "True", "False", "from", "class", "type", "lambda") for k in n.keys) and len({k.value for k in n.keys}) == len(n.keys):
            return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        return n


class TryReturn(Fn):
    """try: return e except ... -> try: r = e except...; else: return r   (single-statement bodies, no finally/else)"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if self.fn and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and n.body[0].value is not None and not n.orelse and not n.finalbody:
            v = fresh(self.fn[-1], "_tr")
            n.orelse = [ast.Return(ast.Name(v, ast.Load()))]
            n.body = [ast.Assign([ast.Name(v, ast.Store())], n.body[0].value)]
        return n


class AugPlain(Fn):
    """self.x += e -> self.x = self.x + e   only numbers: - * /"""
    def visit_AugAssign(self, n):
        if self.fn and isinstance(n.op, (ast.Sub, ast.Mult, ast.Div)) and isinstance(n.target, (ast.Name, ast.Attribute)) and (isinstance(n.target, ast.Name) or isinstance(n.target.value, ast.Name)):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Commute(Fn):
    """a * b -> b * a where both are call-free arithmetic (not strings or lists: operands with a numeric constant excluded)"""
    def num(self, n):
        return all(isinstance(x, (ast.Name, ast.Attribute, ast.BinOp, ast.operator, ast.Load, ast.UnaryOp, ast.USub)) or isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in ast.walk(n))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.op, ast.Mult) and self.num(n) and not any(isinstance(x, ast.Name) and x.id == "self" for x in (n.left, n.right)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Temps(Fn):
    """self.a.b / self.a used twice or more in a straight-line function that assigns no attribute: bound once to a local"""
    def function(self, n):
        if is_gen(n) or not n.args.args or n.args.args[0].arg != "self" or n.decorator_list or any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(n)):
            return n
        body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not body or any(isinstance(x, ast.Call) and not isinstance(x.func, ast.Name) for s in body for x in ast.walk(s)) or any(not isinstance(s, (ast.Assign, ast.Return)) for s in body):
            return n
        cnt = {}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    cnt[x.attr] = cnt.get(x.attr, 0) + 1
        if any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.Lambda)) for s in body for x in ast.walk(s)):
            return n
        todo = [a for a, k in cnt.items() if k >= 2]
        if not todo:
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in todo:
                    return ast.Name("_self_" + x.attr, ast.Load())
                return x
        doc = n.body[:len(n.body) - len(body)]
        n.body = doc + [ast.Assign([ast.Name("_self_" + a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in todo] + [R().visit(s) for s in body]
        return n


class AnyLoop(Fn):
    """assert c, m -> if not c: raise AssertionError(m)"""
    def visit_Assert(self, n):
        if not self.fn:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(ast.Call(ast.Name("AssertionError", ast.Load()), [n.msg] if n.msg else [], []), None)], [])


class Elif(Fn):
    """a loop body 'if c: X' -> 'if not c: continue; X'"""
    def visit_For(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


class Helper(Fn):
    """extract the value of an assignment that uses only local names into a nested function"""
    def visit_Assign(self, n):
        if self.fn and not self.cls or not self.fn or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) or not isinstance(n.value, (ast.BinOp, ast.Call)) or any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Yield, ast.DictComp, ast.SetComp, ast.Await)) for x in ast.walk(n.value)) \
                or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n.value)):
            return n
        self.k = getattr(self, "k", 0) + 1
        if self.k % 3:
            return n
        h = f"_calc_{self.k}"
        d = ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), [ast.Return(n.value)], [], None)
        if any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            return n
        return [d, ast.Assign(n.targets, ast.Call(ast.Name(h, ast.Load()), [], []))]


class DeadStmt(Fn):
    """a statement that does nothing at the start of every function"""
    def function(self, n):
        doc = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body = n.body[:doc] + [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0))] + n.body[doc:]
        return n


class GetAttr(Fn):
    """tuple assignment of consecutive simple assignments: a = x; b = y -> a, b = x, y when y does not use a"""
    def function(self, n):
        def block(body):
            out = []
            i = 0
            while i < len(body):
                s = body[i]
                for f in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        setattr(s, f, block(getattr(s, f)))
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        h.body = block(h.body)
                t = body[i + 1] if i + 1 < len(body) else None
                if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)) and s.targets[0].id != t.targets[0].id and \
                        not any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(t.value)) and not any(isinstance(x, (ast.Lambda, ast.Call)) for x in ast.walk(t.value)):
                    out.append(ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load())))
                    i += 2
                    continue
                out.append(s)
                i += 1
            return out
        n.body = block(n.body)
        return n


class Reorder(Fn):
    """swaps neighbouring independent simple assignments (call-free values, plain names)"""
    def function(self, n):
        def pure(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Call, ast.Lambda, ast.Attribute, ast.Subscript, ast.BinOp, ast.Compare)) for x in ast.walk(s.value)) 
        def block(body):
            i = 0
            while i + 1 < len(body):
                a, b = body[i], body[i + 1]
                if pure(a) and pure(b):
                    na, nb = a.targets[0].id, b.targets[0].id
                    if na != nb and not any(isinstance(x, ast.Name) and x.id == na for x in ast.walk(b.value)) and not any(isinstance(x, ast.Name) and x.id == nb for x in ast.walk(a.value)):
                        body[i], body[i + 1] = b, a
                        i += 1
                i += 1
            return body
        n.body = block(n.body)
        return n


class Methods(Fn):
    """reverses the order of methods in classes where order cannot matter (no decorators, no class-level aliases, no duplicates)"""
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        names = [s.name for s in n.body if isinstance(s, ast.FunctionDef)]
        if len(set(names)) == len(names):
            out, run = [], []
            for s in n.body:
                if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.defaults:
                    run.append(s)
                else:
                    out += run[::-1]
                    run = []
                    out.append(s)
            n.body = out + run[::-1]
            used = {x.id for s in n.body if not isinstance(s, ast.FunctionDef) for x in ast.walk(s) if isinstance(x, ast.Name)}
        return n


class Unpack(Fn):
    """a, b = e -> t = e; a = t[0]; b = t[1]  only for tuple literals"""
    def visit_Assign(self, n):
        if self.fn and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts + n.value.elts):
            self.k = getattr(self, "k", 0) + 1
            vs = [f"_u{self.k}_{i}" for i in range(len(n.value.elts))]
            return [ast.Assign([ast.Name(v, ast.Store())], e) for v, e in zip(vs, n.value.elts)] + [ast.Assign([t], ast.Name(v, ast.Load())) for v, t in zip(vs, n.targets[0].elts)]
        return n


class GenList(Fn):
    """sum/any/all/max/min/tuple/set(generator) -> of a list, and the other way round"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in ("sum", "any", "all", "max", "min", "tuple", "set") and n.args:
            if n.func.id in ("any", "all"):
                return n
            if isinstance(n.args[0], ast.GeneratorExp):
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
            elif isinstance(n.args[0], ast.ListComp):
                n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


class SumLoop(Fn):
    """return sum(e for v in it) -> loop accumulating"""
    def visit_Return(self, n):
        v = n.value
        if self.fn and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "sum" and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
            g = v.args[0].generators[0]
            t = fresh(self.fn[-1], "_tot")
            if assigned([ast.Expr(g.target)]) & {x.id for x in ast.walk(self.fn[-1]) if isinstance(x, ast.Name) and x not in set(ast.walk(v))}:
                return n
            body = [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), v.args[0].elt)]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0)), ast.For(g.target, g.iter, body, []), ast.Return(ast.Name(t, ast.Load()))]
        return n


ALL = {c.__name__.lower(): c for c in (RetVar, SwapIf, GuardElse, UnElse, CompLoop, CompMap, ForIndex, ForRange, Ternary, UnTernary, SplitAnd, DeMorgan, Chain, FlipCmp, IsNot, Impl, Rename, Hoist,
                                       KwPos, StrCat, Percent, StrJoin, DictCall, TryReturn, AugPlain, Commute, Temps, AnyLoop, Elif, Helper, DeadStmt, GetAttr, Reorder, Methods, Unpack, GenList, SumLoop)}


def main():
    if sys.argv[1] == "list":
        print(" ".join(ALL))
        return
    name, src, dst = sys.argv[1:4]
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pyc"))
    for root in ("carbon", "benchmark"):
        for d, ds, fs in os.walk(os.path.join(dst, root)):
            if "tests" in d.split(os.sep):
                continue
            for f in fs:
                if f.endswith(".py") and not (root == "benchmark" and f.startswith("test_")):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p, encoding="utf-8").read())
                    for nm in name.split("+"):
                        t = ast.fix_missing_locations(ALL[nm]().visit(t))
                        t = ast.parse(ast.unparse(t))
                    open(p, "w", encoding="utf-8").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main()
