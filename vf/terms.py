"""
Hash-consed value terms.

A term is the value number of an expression: two program points hold the same value if
they hold the same term.  Terms are built by the abstract interpreter (interp.py) out of
the syntax tree; nothing of the analysed program is executed.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "key", "size", "syms")

    def __repr__(self):
        return show(self)

    # terms are interned: the inherited identity hash and comparison are exactly equality
    def __lt__(self, other):
        return self.key < other.key


_table = {}
_counter = [0]


def mk(op, *args):
    k = (op,) + tuple((id(a), 0) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _counter[0] += 1
        t.key = _counter[0]
        t.size = 1 + sum(a.size for a in args if isinstance(a, T))
        _table[k] = t
    return t


class _Opaque:
    n = 0


def fresh_opaque(why):
    _Opaque.n += 1
    return mk("opaque", why, _Opaque.n)


# --------------------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return mk("const", type(v).__name__, v)


TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
NONE = mk("const", "NoneType", None)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def sym(name):
    return mk("sym", name)


BOOLOPS = {"not", "and", "or", "lt", "eq", "isnone", "in", "truth", "is", "isinst"}
ARITH = {"add", "mul", "div", "floordiv", "mod", "pow", "neg"}
NONNONE = ARITH | BOOLOPS | {
    "tuple", "vec", "list", "dict", "set", "fstr", "func", "cls", "bound", "obj", "seq", "abs",
    "round", "sum", "len", "min", "max", "sqrt", "idx", "float", "Decimal", "int", "str",
    "sorted", "prod", "mod_", "ext", "listcat", "draw",
}


def is_bool(t):
    return t.op in BOOLOPS or t is TRUE or t is FALSE or (
        t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2]))


# --------------------------------------------------------------------------- booleans
def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return OR(*[NOT(a) for a in t.args])
    if t.op == "or":
        return AND(*[NOT(a) for a in t.args])
    if t.op == "ite" and is_bool(t):
        return ITE(t.args[0], NOT(t.args[1]), NOT(t.args[2]))
    if not is_bool(t):
        return mk("not", truth(t)) if truth(t).op != "const" else NOT(truth(t))
    return mk("not", t)


def AND(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if NOT(y) in seen:
            return FALSE
    # absorb / unit-resolve disjunctions
    res = []
    changed = False
    for y in out:
        if y.op == "or":
            if any(d in seen for d in y.args):
                changed = True
                continue
            ds = [d for d in y.args if NOT(d) not in seen]
            if len(ds) != len(y.args):
                changed = True
                y = OR(*ds)
        res.append(y)
    if changed:
        return AND(*res)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *sorted(res))


def OR(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "or" else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if NOT(y) in seen:
            return TRUE
    # a or (not a and b) -> a or b ; a or (a and b) -> a
    res = []
    changed = False
    for y in out:
        if y.op == "and":
            if any(c in seen for c in y.args):
                changed = True
                continue
            cs = [c for c in y.args if NOT(c) not in seen]
            if len(cs) != len(y.args):
                changed = True
                y = AND(*cs)
        res.append(y)
    if changed:
        return OR(*res)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    # factor common conjuncts:  (a&b) | (a&c) -> a & (b|c)
    if all(y.op == "and" for y in res):
        common = set(res[0].args)
        for y in res[1:]:
            common &= set(y.args)
        if common:
            rest = [AND(*[c for c in y.args if c not in common]) for y in res]
            return AND(*(sorted(common) + [OR(*rest)]))
    return mk("or", *sorted(res))


def truth(t):
    if is_bool(t):
        return t
    if t.op == "const":
        return TRUE if cval(t) else FALSE
    if t.op in ("func", "cls", "bound"):
        return TRUE
    if t.op == "tuple":
        return TRUE if t.args else FALSE
    if t.op == "ite":
        return ITE(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return mk("truth", t)


def LT(a, b):
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(cval(a) < cval(b)))
        except Exception:
            return mk("lt", a, b)
    # move a unary minus across a comparison with a constant
    if a.op == "neg" and b.op == "const" and isinstance(cval(b), (int, float)):
        return LT(const(-cval(b)) if cval(b) else b, a.args[0])
    if b.op == "neg" and a.op == "const" and isinstance(cval(a), (int, float)):
        return LT(b.args[0], const(-cval(a)) if cval(a) else a)
    if a.op == "ite" and b.op == "const":
        return ITE(a.args[0], LT(a.args[1], b), LT(a.args[2], b))
    if b.op == "ite" and a.op == "const":
        return ITE(b.args[0], LT(a, b.args[1]), LT(a, b.args[2]))
    return mk("lt", a, b)


def LE(a, b):
    return NOT(LT(b, a))


GIVEN = set()      # names of inputs a check assumes to be given (not None)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "const" or t.op in NONNONE or t.op == "sym" and t.args[0] in GIVEN:
        return FALSE
    if t.op == "ite":
        return ITE(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    return mk("isnone", t)


def EQ(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a.op == "const" and b.op == "const":
        return const(bool(cval(a) == cval(b)))
    if a is TRUE or a is FALSE:
        a, b = b, a
    if (b is TRUE or b is FALSE) and is_bool(a):
        return a if b is TRUE else NOT(a)
    if a.op == "ite" and (b.op == "const" or a.args[1].op == "const" or a.args[2].op == "const"):
        return ITE(a.args[0], EQ(a.args[1], b), EQ(a.args[2], b))
    if b.op == "ite" and (a.op == "const" or b.args[1].op == "const" or b.args[2].op == "const"):
        return ITE(b.args[0], EQ(a, b.args[1]), EQ(a, b.args[2]))
    if a.op == "neg" and b.op == "const" and cval(b) == 0:
        return EQ(a.args[0], b)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "obj" and b.op == "obj" and not isinstance(a.args[0], str):
        pass
    if {a.op, b.op} <= {"cls", "ext", "func"}:
        return FALSE
    if b.key < a.key:
        a, b = b, a
    return mk("eq", a, b)


def lit_known(c, facts):
    """truth value of condition c under the set of literal facts, or None"""
    if c in facts:
        return True
    n = NOT(c)
    if n in facts:
        return False
    if c.op == "lt":
        a, b = c.args
        if mk("lt", b, a) in facts or EQ(a, b) in facts:
            return False
        # constants: x<c1 known, ask x<c2
        for f in facts:
            r = _cmp_const(c, f)
            if r is not None:
                return r
    elif c.op == "not" and c.args[0].op == "lt":
        r = lit_known(c.args[0], facts)
        return None if r is None else (not r)
    elif c.op == "eq":
        a, b = c.args
        if mk("lt", a, b) in facts or mk("lt", b, a) in facts:
            return False
        if b.op != "const":
            a, b = b, a
        if b.op == "const":
            for f in facts:
                if f.op == "eq":
                    x, y = f.args
                    if y.op != "const":
                        x, y = y, x
                    if y.op == "const" and x is a and cval(y) != cval(b):
                        return False
        if mk("isnone", a) in facts and b.op == "const":
            return False
        for f in facts:
            if f.op == "lt" and b.op == "const":
                r = _eq_vs_lt(a, b, f)
                if r is not None:
                    return r
    elif c.op == "isnone":
        a = c.args[0]
        for f in facts:
            if f.op == "lt" and a in f.args:
                return False
            if f.op == "eq" and a in f.args:
                o = f.args[0] if f.args[1] is a else f.args[1]
                if o.op == "const" and o is not NONE:
                    return False
            if f.op == "truth" and f.args[0] is a:
                return False
            if f.op == "not" and f.args[0].op == "lt" and a in f.args[0].args:
                return False
    elif c.op == "truth":
        if mk("isnone", c.args[0]) in facts:
            return False
    elif c.op == "not":
        r = lit_known(c.args[0], facts)
        return None if r is None else (not r)
    elif c.op == "and":
        rs = [lit_known(a, facts) for a in c.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    elif c.op == "or":
        rs = [lit_known(a, facts) for a in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
    return None


def _num(t):
    return t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


def _cmp_const(c, f):
    pos = True
    if f.op == "not":
        f = f.args[0]
        pos = False
    if f.op != "lt":
        if f.op == "eq" and pos:
            x, y = f.args
            if not _num(y):
                x, y = y, x
            if _num(y):
                a, b = c.args
                if a is x and _num(b):
                    return cval(y) < cval(b)
                if b is x and _num(a):
                    return cval(a) < cval(y)
        return None
    a, b = c.args
    x, y = f.args
    if pos:
        if a is x and _num(b) and _num(y) and cval(y) <= cval(b):      # x<y => x<b
            return True
        if b is y and _num(a) and _num(x) and cval(a) <= cval(x):      # x<y => a<y
            return True
        if a is y and _num(b) and _num(x) and cval(b) <= cval(x):      # x<a , a<b? b<=x
            return False
        if b is x and _num(a) and _num(y) and cval(y) <= cval(a):      # b<y<=a => not a<b
            return False
    else:   # not x<y : x>=y
        if a is x and _num(b) and _num(y) and cval(y) >= cval(b):
            return False
        if b is x and _num(a) and _num(y) and cval(a) < cval(y):       # b>=y>a
            return True
        if b is y and _num(a) and _num(x) and cval(x) <= cval(a):      # y<=x<=a
            return False
        if a is y and _num(b) and _num(x) and cval(x) < cval(b):       # y<=x<b
            return True
    return None


def _eq_vs_lt(a, b, f):
    x, y = f.args
    if x is a and _num(y) and _num(b) and cval(b) >= cval(y):
        return False
    if y is a and _num(x) and _num(b) and cval(b) <= cval(x):
        return False
    return None


def simp(c, facts):
    """simplify boolean c under a set of known literals"""
    if c.op == "const" or not facts:
        return c
    k = lit_known(c, facts)
    if k is not None:
        return TRUE if k else FALSE
    if c.op == "and":
        return AND(*[simp(a, facts) for a in c.args])
    if c.op == "or":
        return OR(*[simp(a, facts) for a in c.args])
    if c.op == "not":
        return NOT(simp(c.args[0], facts))
    if c.op == "ite":
        d = simp(c.args[0], facts)
        return ITE(d, simp(c.args[1], facts) if is_bool(c.args[1]) else c.args[1],
                   simp(c.args[2], facts) if is_bool(c.args[2]) else c.args[2])
    return c


def literals(c):
    return set(c.args) if c.op == "and" else {c}


def restrict(t, facts, depth=12):
    """prune gates of t whose condition is decided by facts"""
    if t.op == "ite" and depth > 0:
        c = simp(t.args[0], facts)
        if c is TRUE:
            return restrict(t.args[1], facts, depth - 1)
        if c is FALSE:
            return restrict(t.args[2], facts, depth - 1)
        a = restrict(t.args[1], facts | literals(c), depth - 1)
        b = restrict(t.args[2], facts | literals(NOT(c)), depth - 1)
        return ITE(c, a, b)
    if is_bool(t):
        return simp(t, facts)
    return t


def ITE(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ITE(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return NOT(c)
        if a is TRUE:
            return OR(c, b)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is FALSE:
            return AND(c, a)
        if b is TRUE:
            return OR(NOT(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# --------------------------------------------------------------------------- arithmetic
def _n(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def exact(v):
    """the number a literal denotes (a float by its decimal form)"""
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


def vmap(f, *xs):
    """elementwise operation on vectors (numbers are repeated); None when the lengths differ"""
    n = {len(x.args) for x in xs if x.op == "vec"}
    if len(n) != 1:
        return None
    return mk("vec", *[f(*[x.args[i] if x.op == "vec" else x for x in xs]) for i in range(n.pop())])


def arith(op, a, b):
    if a.op == "vec" or b.op == "vec":
        v = vmap(lambda x, y: arith(op, x, y), a, b)
        if v is not None:
            return v
    if a in (TRUE, FALSE):
        a = const(int(cval(a)))
    if b in (TRUE, FALSE):
        b = const(int(cval(b)))
    if a.op == "const" and b.op == "const" and _n(cval(a)) and _n(cval(b)):
        x, y = cval(a), cval(b)
        try:
            if op == "add" and exact(x + y) == exact(x) + exact(y):
                return const(x + y)
            if op == "mul" and exact(x * y) == exact(x) * exact(y):
                return const(x * y)
            if op == "floordiv" and isinstance(x, int) and isinstance(y, int):
                return const(x // y)
            if op == "mod" and isinstance(x, int) and isinstance(y, int):
                return const(x % y)
            if op == "pow" and isinstance(x, int) and isinstance(y, int) and 0 <= y <= 4096:
                return const(x ** y)
            if op == "div" and y != 0 and exact(x / y) == exact(x) / exact(y):
                return const(x / y)
        except Exception:
            pass
    if a.op == "const" and b.op == "const" and isinstance(cval(a), str) and isinstance(cval(b), str) and op == "add":
        return const(cval(a) + cval(b))
    return mk(op, a, b)


def NEG(a):
    if a.op == "vec":
        return vmap(NEG, a)
    if a in (TRUE, FALSE):
        return const(-int(cval(a)))
    if a.op == "const" and _n(cval(a)):
        return const(-cval(a))
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def SUB(a, b):
    return arith("add", a, NEG(b))


# --------------------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def contains(t, u):
    for x in subterms(t):
        if x is u:
            return True
    return False


def contains_any(t, us):
    us = set(us)
    for x in subterms(t):
        if x in us:
            return True
    return False


def rebuild(op, args):
    if op == "and":
        return AND(*args)
    if op == "or":
        return OR(*args)
    if op == "not":
        return NOT(args[0])
    if op == "ite":
        return ITE(*args)
    if op == "lt":
        return LT(*args)
    if op == "eq":
        return EQ(*args)
    if op == "isnone":
        return isnone(args[0])
    if op == "truth":
        return truth(args[0])
    if op == "neg":
        return NEG(args[0])
    if op in ARITH:
        return arith(op, *args)
    if op == "attr":
        return ATTR(*args)
    if op == "item":
        return ITEM(*args)
    if op == "in":
        return IN(*args)
    return mk(op, *args)


_subst1 = {}


def subst(t, mapping, memo=None):
    if memo is None:
        if len(mapping) == 1:
            (a, b), = mapping.items()
            memo = _subst1.get((a, b))
            if memo is None:
                memo = _subst1[(a, b)] = {}
        else:
            memo = {}
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r
    args = []
    ch = False
    for a in t.args:
        if isinstance(a, T):
            b = subst(a, mapping, memo)
            ch = ch or (b is not a)
            args.append(b)
        else:
            args.append(a)
    r = rebuild(t.op, args) if ch else t
    memo[t] = r
    return r


# --------------------------------------------------------------------------- containers
def ATTR(base, name):
    if base.op == "ite":
        return ITE(base.args[0], ATTR(base.args[1], name), ATTR(base.args[2], name))
    return mk("attr", base, name)


def comp_seg(t):
    """if t is a frozen list made of exactly one comprehension segment, return it"""
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "seg" and t.args[0].args[2].args:
        return t.args[0]
    return None


def same_positions(e, g, ls):
    """positions, in e, in a list built by the very loop (ls, g)"""
    out = []
    for t in subterms(e):
        if t.op == "idx":
            s = comp_seg(t.args[0])
            if s is not None and s.args[1] is g and s.args[2] is ls:
                out.append(t)
    return out


def ITEM(base, key):
    if base.op == "ite":
        return ITE(base.args[0], ITEM(base.args[1], key), ITEM(base.args[2], key))
    if key.op == "ite":
        return ITE(key.args[0], ITEM(base, key.args[1]), ITEM(base, key.args[2]))
    if base.op in ("tuple", "vec") and key.op == "const" and isinstance(cval(key), int):
        i = cval(key)
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if key.op == "idx" and key.args[0] is base:
        return mk("elem", base)
    if base.op == "list" and key.op == "const" and isinstance(cval(key), int):
        segs = base.args
        if all(s.op == "seg" and s.args[1] is TRUE and not s.args[2].args for s in segs):
            i = cval(key)
            if -len(segs) <= i < len(segs):
                return segs[i].args[0]
    s = comp_seg(base)
    if s is not None:
        e, g, ls = s.args
        # map fusion: [f(x) for x in X if g][i]  ->  f([x for x in X if g][i])
        if len(ls.args) == 1:
            x = mk("elem", ls.args[0])
            i = mk("idx", ls.args[0])
            same = same_positions(e, g, ls)
            if e is not x and contains(e, x) and not contains(e, i) or same:
                inner = mk("list", mk("seg", x, g, ls))
                return subst(e, {x: ITEM(inner, key), **{j: key for j in same}})
            if e is not i and contains(e, i) and not contains(e, x) and g is TRUE:
                return subst(e, {i: key})
    if base.op == "dict" and len(base.args) == 1 and base.args[0].op == "kv":
        k, v, g, ls = base.args[0].args
        if len(ls.args) == 1:
            x = mk("elem", ls.args[0])
            i = mk("idx", ls.args[0])
            if k is x:
                m = {x: key}
                if not contains(v, i):
                    return subst(v, m)
            if k.op == "idx" and k is not i and k in same_positions(k, g, ls):
                return subst(v, {k: key, x: ITEM(mk("list", mk("seg", x, g, ls)), key)})
            if k is i:
                # {i: f(X[i]) for i in range(len(X))}[j]
                return subst(v, {i: key, x: ITEM(ls.args[0], key)})
    if base.op == "dict" and key.op == "const":
        # all-constant dict
        hit = None
        present = FALSE
        ok = True
        for kv in base.args:
            if kv.op != "kv" or kv.args[3].args or kv.args[0].op != "const":
                ok = False
                break
            if cval(kv.args[0]) == cval(key) and type(cval(kv.args[0])) == type(cval(key)):
                present = OR(present, kv.args[2])
                hit = kv.args[1] if hit is None else ITE(kv.args[2], kv.args[1], hit)
        ok = ok and present is TRUE
        if ok and hit is not None:
            return hit
    return mk("item", base, key)


def IN(x, c):
    if c.op == "ite":
        return ITE(c.args[0], IN(x, c.args[1]), IN(x, c.args[2]))
    if c.op == "tuple":
        return OR(*[EQ(x, a) for a in c.args])
    if c.op in ("list", "set"):
        outs = []
        for s in c.args:
            if s.op != "seg":
                return mk("in", x, c)
            e, g, ls = s.args
            if not ls.args:
                outs.append(AND(g, EQ(x, e)))
            elif len(ls.args) == 1 and e is mk("elem", ls.args[0]):
                src = ls.args[0]
                outs.append(AND(IN(x, src), subst(g, {e: x})))
            else:
                return mk("in", x, c)
        return OR(*outs)
    if c.op == "const" and x.op == "const":
        try:
            return const(cval(x) in cval(c))
        except Exception:
            pass
    if x.op == "elem" and x.args[0] is c:
        return TRUE
    if c.op == "dict":
        outs = []
        for s in c.args:
            if s.op != "kv" or s.args[3].args:
                break
            outs.append(AND(s.args[2], EQ(x, s.args[0])))
        else:
            return OR(*outs)
        if len(c.args) == 1 and c.args[0].op == "kv":
            k, v, g, ls = c.args[0].args
            if len(ls.args) == 1 and k is mk("elem", ls.args[0]):
                return AND(IN(x, ls.args[0]), subst(g, {k: x}))
    return mk("in", x, c)


_show_budget = [0]


def show(t, depth=40, nodes=1500):
    """printable form; large terms are cut off"""
    _show_budget[0] = nodes
    return _show(t, depth)


def brief(t, n=200):
    s = show(t, 30, 120)
    return s if len(s) <= n else s[:n - 1] + "~"


def _show(t, depth):
    if not isinstance(t, T):
        return repr(t)
    _show_budget[0] -= 1
    if depth <= 0 or _show_budget[0] < 0:
        return "~"
    d = depth - 1
    o, a = t.op, t.args
    try:
        if o == "const":
            return repr(a[1])
        if o == "sym":
            return a[0]
        if o == "attr":
            return f"{_show(a[0], d)}.{a[1]}"
        if o == "item":
            return f"{_show(a[0], d)}[{_show(a[1], d)}]"
        if o == "elem":
            return f"each({_show(a[0], d)})"
        if o == "idx":
            return f"index({_show(a[0], d)})"
        if o in ("add", "mul", "div", "floordiv", "mod", "pow"):
            s = {"add": "+", "mul": "*", "div": "/", "floordiv": "//", "mod": "%", "pow": "**"}[o]
            return f"({_show(a[0], d)} {s} {_show(a[1], d)})"
        if o == "neg":
            return f"-{_show(a[0], d)}"
        if o == "not":
            x = a[0]
            if x.op == "lt":
                return f"({_show(x.args[0], d)} >= {_show(x.args[1], d)})"
            if x.op == "eq":
                return f"({_show(x.args[0], d)} != {_show(x.args[1], d)})"
            if x.op == "isnone":
                return f"({_show(x.args[0], d)} is not None)"
            return f"not {_show(x, d)}"
        if o == "lt":
            return f"({_show(a[0], d)} < {_show(a[1], d)})"
        if o == "eq":
            return f"({_show(a[0], d)} == {_show(a[1], d)})"
        if o == "isnone":
            return f"({_show(a[0], d)} is None)"
        if o in ("and", "or"):
            return "(" + f" {o} ".join(_show(x, d) for x in a) + ")"
        if o == "ite":
            return f"({_show(a[1], d)} if {_show(a[0], d)} else {_show(a[2], d)})"
        if o == "in":
            return f"({_show(a[0], d)} in {_show(a[1], d)})"
        if o == "seg":
            g = "" if a[1] is TRUE else f" if {_show(a[1], d)}"
            l = "".join(f" for {_show(x, d)}" for x in a[2].args)
            return f"{_show(a[0], d)}{l}{g}"
        if o == "kv":
            g = "" if a[2] is TRUE else f" if {_show(a[2], d)}"
            l = "".join(f" for {_show(x, d)}" for x in a[3].args)
            return f"{_show(a[0], d)}: {_show(a[1], d)}{l}{g}"
        if o == "list":
            return "[" + ", ".join(_show(x, d) for x in a) + "]"
        if o in ("dict", "set"):
            return "{" + ", ".join(_show(x, d) for x in a) + "}"
        if o == "vec":
            return "<" + ", ".join(_show(x, d) for x in a) + ">"
        if o == "tuple":
            return "(" + ", ".join(_show(x, d) for x in a) + ",)"
        if o == "obj":
            return f"<{a[0]}#{a[1]}>"
        if o == "kw":
            return f"{a[0]}={_show(a[1], d)}"
        if o == "call":
            return f"{_show(a[0], d) if isinstance(a[0], T) else a[0]}(" + ", ".join(_show(x, d) for x in a[1:]) + ")"
        if o == "ext":
            return a[0]
        if o == "mcall":
            return f"{_show(a[1], d)}.{a[0]}(" + ", ".join(_show(x, d) for x in a[2:]) + ")"
    except Exception:
        pass
    return f"{o}(" + ", ".join(_show(x, d) if isinstance(x, T) else repr(x) for x in a) + ")"


def syms(t):
    """the free symbols of a term"""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            out.append(x)
        todo += [y for y in x.args if isinstance(y, T)]
    return out
