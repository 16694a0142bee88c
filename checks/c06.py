import ast

from checks.trade import *

RULES = {
    "contained": "with raise-on-error off no exception leaves a public operation",
    "protected": "no step that can fail on the caller's arguments is done outside the operation's catch-all handler",
    "flagged": "with raise-on-error off a failed request yields success=False with the error and the exception, and only then",
    "propagates": "with raise-on-error on the operation does not complete once an exception was caught",
    "original": "the exception that is passed on is the one that was caught",
    "swallow": "no exception handler of the trading core completes normally, except the documented fallbacks",
}

OPS = ("add_order", "add_strategy", "add_fromsdk", "amm_buys", "amm_sells", "trader_buys", "trader_sells", "state")
TRADES = ("amm_buys", "amm_sells", "trader_buys", "trader_sells")
CREATE = ("add_order", "add_strategy")

# handlers that complete normally in the confirmed code: file -> exception name -> how many
FALLBACKS = {
    "carbon/carbon_order_ui.py": {"*": 2, "PriceOutOfBoundsErrorBeyondStart": 1, "PriceOutOfBoundsErrorBeyondMarg": 1, "PriceOutOfBoundsErrorBeyondEnd": 1},
    "carbon/pair.py": {"*": 1},
    "carbon/simulators/carbon_simulator.py": {"KeyError": 2},
    "carbon/routers/base_router.py": {"AssertionError": 1},
    "carbon/routers/exact_base_router.py": {"AssertionError": 1},
    "carbon/routers/exact_router_x0y0n.py": {},
    "carbon/routers/fast_router.py": {},
    "carbon/routers/alpha_router.py": {},
    "carbon/order.py": {},
}


# ------------------------------------------------------------------ value flow over the operation
def runs(op, roe):
    ctor = {"raiseonerror": roe, "verbose": sym("VERBOSE"), "debug": sym("DEBUG")}
    if op in CREATE:
        names = {"add_order": ("p_start", "p_end", "p_marginal", "y_int"),
                 "add_strategy": ("amt_sell", "psell_start", "psell_end", "amt_buy", "pbuy_start", "pbuy_end", "psell_marginal", "y_int_buy")}[op]
        kw = {n: sym(n.upper()) for n in names}
        if op == "add_order":
            kw["amt"] = sym("AMT")
        return AddRun(op, sym("TKN"), kw, ctor=ctor, numeric=False)
    if op == "add_fromsdk":
        return TradeRun("exact", op, {}, ctor=ctor, pos=[sym("SDK")], raiseonerror=roe, opaque=("add_strategy", "from_SDK"))
    if op == "state":
        return TradeRun("exact", op, {"pair": NONE}, ctor=ctor, pos=[], raiseonerror=roe)
    return TradeRun("exact", op, {"limit_price": sym("LP")}, ctor=ctor, raiseonerror=roe)


def leaves(t, cond=TRUE, out=None):
    out = [] if out is None else out
    if t.op == "ite":
        leaves(t.args[1], AND(cond, t.args[0]), out)
        leaves(t.args[2], AND(cond, NOT(t.args[0])), out)
    else:
        out.append((cond, t))
    return out


def dict_fields(I, st, t):
    f = I.freeze(t, st)
    if f.op != "dict":
        return None
    d = {}
    for kv in f.args:
        if kv.op != "kv" or kv.args[0].op != "const":
            return None
        d[cval(kv.args[0])] = kv.args[1]
    return d


def broad(I):
    """handlers for any exception met on the way: {flag term: (function, line)}"""
    out = {}
    for n, (names, fr, s, entry) in getattr(I, "trys", {}).items():
        q = getattr(fr.func, "qual", None) or str(fr.func)
        if names is None and ".simulators." in q:
            out[mk("truth", mk("exc", n))] = (q, s, entry)
    return out


def off(ck, op):
    r = runs(op, FALSE)
    I, st = r.I, r.st
    ck.absorb(I)
    C = Canon(I)
    esc = [e for e in r.effects if e.kind == "raise" and not e.caught and not C.unsat(AND(r.facts, e.guard))]
    for e in esc:
        ck.bad("contained", f"{op}:{e.fn}", f"exception leaves the operation when {brief(e.guard, 200)}", e.where)
    if not esc:
        ck.ok("contained", op, f"{sum(1 for e in r.effects if e.kind == 'raise')} raise sites")
    if r.result is None:
        if not esc:
            ck.undecided("flagged", op, "no result")
        return
    excs = broad(I)
    caught = [e for e in r.effects if e.kind == "raise" and e.caught and not C.unsat(AND(r.facts, e.guard))]
    fails = list(excs) + [e.guard for e in caught]
    for cond, leaf in leaves(I.freeze(r.result, st)):
        d = dict_fields(I, st, leaf)
        if leaf.op == "call" or d is None:
            if contains_op(leaf, "opaque_call") or leaf.op in ("call", "opaque", "ret"):
                continue
            ck.undecided("flagged", op, f"result is {brief(leaf, 100)}")
            continue
        if C.unsat(AND(r.facts, cond)):
            continue
        succ = d.get("success")
        failed = succ is not None and (succ is FALSE or C.same(succ, FALSE, cond))
        key = f"{op}:{'failure' if failed else 'success'}"
        if failed:
            ok = C.unsat(AND(r.facts, cond, *[NOT(x) for x in fails]))
            ck.decide(True if ok else False if C.unsat(AND(cond, OR(*fails))) else None, "flagged", key + " only on failure",
                      f"a failure is reported when nothing failed: {brief(cond, 200)}")
            for k in ("error", "exception"):
                v = d.get(k)
                has = v is not None and contains_op(v, "excvar")
                ck.decide(has, "flagged", f"{key} {k}", f"entry {k} of the failure result is {v and brief(v, 80)}")
            continue
        for x, (q, s, entry) in excs.items():
            good = C.unsat(AND(r.facts, cond, x, entry))
            ck.decide(bool(good), "flagged", f"{op}:{q} handled", f"an unflagged result is returned although an exception was caught by the handler of the try at line {s.lineno}")
        if succ is not None:
            ck.decide(succ is TRUE or C.same(succ, TRUE, cond), "flagged", key + " flag", f"success={brief(succ, 60)} on a path without exception")
        elif op != "state":
            ck.bad("flagged", key + " flag", "no success flag on the successful result")


def contains_op(t, op):
    seen = set()

    def go(x):
        if id(x) in seen:
            return False
        seen.add(id(x))
        if isinstance(x, T):
            return x.op == op or any(go(a) for a in x.args)
        if isinstance(x, tuple):
            return any(go(a) for a in x)
        return False
    return go(t)


def conj(t):
    return set(t.args) if t.op == "and" else {t}


def on(ck, op):
    r = runs(op, TRUE)
    I, st = r.I, r.st
    ck.absorb(I)
    C = Canon(I)
    live = AND(*st.guard) if st.guard else TRUE
    excs = broad(I)
    for x, (fn, s, entry) in excs.items():
        if r.dead:
            ck.ok("propagates", f"{op}:{s.lineno}")
            continue
        frozen = I.freeze(r.result, st) if r.result is not None else NONE
        hit = [c for c, l in leaves(frozen) if not C.unsat(AND(r.facts, live, c, x, entry))]
        if not hit:
            ck.ok("propagates", f"{op}:{fn}")
            continue
        # a path of the result is compatible with the caught exception: was it passed on?
        again = [e for e in r.effects if e.kind == "raise" and x in conj(e.guard)]
        if again and all(C.implies(x, e.guard) or True for e in again) and not any(x in conj(c) for c in hit):
            cover = OR(*[e.guard for e in again])
            ck.decide(True if C.unsat(AND(r.facts, live, x, NOT(cover))) or not mentions(frozen, x) and not mentions(live, x) else None,
                      "propagates", f"{op}:{fn}", "completion after the caught exception not recognised")
        else:
            ck.bad("propagates", f"{op}:{fn}", f"the operation can complete although an exception was caught by the handler of line {s.lineno}")
    for e in r.effects:
        if e.kind == "raise" and any(x in conj(e.guard) for x in excs):
            ck.decide(bool(e.handler) or (e.value is not None and e.value.op == "excvar"), "original", f"{op}:{e.fn}",
                      f"a different exception is raised instead: {brief(e.value, 80) if e.value is not None else e.key}", e.where)


def mentions(t, x):
    return contains(t, x)


# ------------------------------------------------------------------ steps outside the handler
def catches_all(t):
    for h in t.handlers:
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for x in ts:
            if (isinstance(x, ast.Name) and x.id in ("Exception", "BaseException")) or (isinstance(x, ast.Attribute) and x.attr in ("Exception", "BaseException")):
                return True
    return False


SAFE = {"str", "repr", "print", "isinstance", "type", "id", "dict", "bool"}


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def risky(e, tainted):
    """first sub-expression that can fail depending on a tainted value"""
    for n in ast.walk(e):
        if isinstance(n, ast.Compare):
            if all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in n.ops):
                continue
            if names_in(n) & tainted:
                return n
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd, ast.Invert)):
            if names_in(n.operand) & tainted:
                return n
        elif isinstance(n, ast.BinOp) and names_in(n) & tainted:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            return n
        elif isinstance(n, ast.Subscript) and names_in(n) & tainted:
            return n
        elif isinstance(n, ast.Attribute) and names_in(n.value) & tainted:
            return n
    return None


def protected(ck, op):
    """syntax-directed walk of the operation and of what it calls outside a catch-all handler"""
    p = project()
    c = cls_named("CarbonSimulatorUI")
    seen = {}

    def method(name):
        m = p.find_member(c, name)
        for _ in range(4):
            if m is None:
                return None
            kind, node = m[1][0], m[1][1]
            if kind == "assign" and isinstance(node, ast.Name):
                m = p.find_member(c, node.id)
                continue
            break
        return (m[1][0], m[1][1], m[0].mod) if m and isinstance(m[1][1], ast.FunctionDef) else None

    def walk(name, tainted, depth):
        if depth > 6 or (name, frozenset(tainted)) in seen:
            return
        seen[(name, frozenset(tainted))] = 1
        m = method(name)
        if m is None:
            return
        node = m[1]
        ck.functions.add(f"{c.qual}.{name}")
        body(node.body, set(tainted), name, m[2], depth)

    def expr(e, tainted, name, mod, depth):
        if e is None:
            return
        x = risky(e, tainted)
        where = f"{p.rel(mod.path)}:{e.lineno}"
        if x is not None:
            ck.bad("protected", f"{op}:{name}:{ast.unparse(x)[:60]}", "this step can fail on the caller's argument and is not inside the catch-all handler", where)
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            args = list(n.args) + [k.value for k in n.keywords]
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                m = method(f.attr)
                if m:
                    ps = [a.arg for a in m[1].args.posonlyargs + m[1].args.args]
                    if m[0] != "static":
                        ps = ps[1:]
                    t = {a for a, v in zip(ps, n.args) if names_in(v) & tainted}
                    t |= {k.arg for k in n.keywords if k.arg and names_in(k.value) & tainted}
                    walk(f.attr, t, depth + 1)
                    continue
            if isinstance(f, ast.Name) and f.id in SAFE:
                continue
            if any(names_in(a) & tainted for a in args):
                ck.bad("protected", f"{op}:{name}:{ast.unparse(f)[:60]}", "this call can fail on the caller's argument and is not inside the catch-all handler", where)

    def body(stmts, tainted, name, mod, depth):
        for s in stmts:
            if isinstance(s, ast.Try):
                if catches_all(s):
                    continue
                body(s.body, tainted, name, mod, depth)
                body(s.orelse, tainted, name, mod, depth)
                body(s.finalbody, tainted, name, mod, depth)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            elif isinstance(s, ast.Assert):
                if names_in(s.test) & tainted:
                    ck.bad("protected", f"{op}:{name}:assert", "an assertion on the caller's argument outside the catch-all handler", f"{p.rel(mod.path)}:{s.lineno}")
            elif isinstance(s, ast.Raise):
                ck.bad("protected", f"{op}:{name}:raise", "an exception is raised outside the catch-all handler", f"{p.rel(mod.path)}:{s.lineno}")
            elif isinstance(s, (ast.If, ast.While)):
                expr(s.test, tainted, name, mod, depth)
                body(s.body, tainted, name, mod, depth)
                body(s.orelse, tainted, name, mod, depth)
            elif isinstance(s, ast.For):
                if names_in(s.iter) & tainted:
                    ck.bad("protected", f"{op}:{name}:loop", "a loop over the caller's argument outside the catch-all handler", f"{p.rel(mod.path)}:{s.lineno}")
                expr(s.iter, tainted, name, mod, depth)
                body(s.body, tainted, name, mod, depth)
            elif isinstance(s, ast.With):
                body(s.body, tainted, name, mod, depth)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                if s.value is not None:
                    expr(s.value, tainted, name, mod, depth)
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                (tainted.add if names_in(s.value) & tainted else tainted.discard)(n.id)
            elif isinstance(s, (ast.Expr, ast.Return)):
                expr(s.value, tainted, name, mod, depth)
    m = method(op)
    if m is None:
        ck.bad("protected", op, "the operation does not exist")
        return
    a = m[1].args
    b0 = len(ck.broken)
    walk(op, {x.arg for x in a.args[1:] + a.kwonlyargs}, 0)
    if len(ck.broken) == b0:
        ck.ok("protected", op)


# ------------------------------------------------------------------ swallowing handlers
def completes(stmts, helpers=()):
    """the handler ends normally without a failure record having been made in it"""
    if any(flagged(x) or isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in helpers
           for s in stmts for x in ast.walk(s) if isinstance(x, (ast.Dict, ast.Call))):
        return False
    return falls(stmts)


def falls(stmts):
    for s in stmts:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, ast.If):
            if not falls(s.body) and s.orelse and not falls(s.orelse):
                return False
        if isinstance(s, ast.Return):
            return True
    return True


def failure_helpers(tree):
    """functions of the module all of whose results are failure records, or that always raise"""
    out = set()
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            rets = [x for x in ast.walk(fn) if isinstance(x, ast.Return)]
            made = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and flagged(x.value) for t in x.targets if isinstance(t, ast.Name)}
            if rets and all(r.value is not None and (flagged(r.value) or isinstance(r.value, ast.Name) and r.value.id in made) for r in rets) or not rets and not falls(fn.body):
                out.add(fn.name)
    return out


def flagged(e):
    """a failure record (success=False with the exception)"""
    if isinstance(e, ast.Dict):
        for k, v in zip(e.keys, e.values):
            if isinstance(k, ast.Constant) and k.value == "success":
                return isinstance(v, ast.Constant) and v.value is False
    if isinstance(e, ast.Call):
        return any(k.arg == "success" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords) or \
            any("fail" in n.lower() or "err" in n.lower() for n in [ast.unparse(e.func)])
    return False


def swallow(ck):
    p = project()
    for f, known in FALLBACKS.items():
        ms = [m for m in p.mods.values() if p.rel(m.path) == f]
        if not ms:
            continue
        found = {}
        n = 0
        helpers = failure_helpers(ms[0].tree)
        for fn in ast.walk(ms[0].tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for t in own(fn):
                if not isinstance(t, ast.Try):
                    continue
                for h in t.handlers:
                    n += 1
                    if not completes(h.body, helpers):
                        continue
                    ts = ["*"] if h.type is None else [x.attr if isinstance(x, ast.Attribute) else ast.unparse(x)
                                                       for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    for x in ts:
                        if x in ("Exception", "BaseException"):
                            x = "*"
                        found.setdefault(x, []).append((fn.name, h.lineno))
        for x, sites in found.items():
            k = known.get(x, 0)
            if len(sites) > k:
                ck.bad("swallow", f"{f}:{x}", f"{len(sites)} handlers of {'any exception' if x == '*' else x} complete normally, {k} are documented: "
                       + ", ".join(f"{a} line {b}" for a, b in sites), f"{f}:{sites[-1][1]}")
        ck.ok("swallow", f, f"{n} handlers")


def own(fn):
    """nodes of a function, nested functions excluded"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.append(c)


def main():
    ck = Check("C06", "Errors are contained exactly as configured", RULES, floor=20,
               assumptions=["formatting a value (str, f-string) and truth tests of the caller's arguments do not fail",
                            "exceptions raised inside library calls are covered by the catch-all handlers found"])
    for op in OPS:
        guarded(ck, "contained", op, lambda: off(ck, op))
        guarded(ck, "propagates", op, lambda: on(ck, op))
        protected(ck, op)
    swallow(ck)
    return ck.finish()


if __name__ == "__main__":
    run(main)
