"""Shared variables against the operators of the values they hold (abstract evaluation of every operator
method on a symbolic held value and operand; object identity and other holders tracked on the abstract heap)."""
from checks.c20 import *

RULES = {
    "binary": "a binary operator gives the operator's result on the held value, operands in order, in a variable of its own",
    "inplace": "an in-place operator updates the variable itself, seen by every holder of it",
    "compare": "a comparison answers what the held value answers",
    "unary": "a unary operator or conversion answers what the held value answers",
    "separate": "no operator changes its operand, nor any other variable",
}
SV = "carbon.helpers.sharedvar.SharedVar"
BIN = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^"]
SYM = {"+", "*", "&", "|", "^"}


def main():
    ck = Check("C28", "Shared variables compute like the values they hold", RULES, floor=60, assumptions=["operators of the held value are the Python number operators"])
    v, u, w = sym("v"), sym("u"), sym("w")
    s = Sc(ck, [v, u, w])
    new = lambda *a: s.I.construct(s.I.qual(SV), list(a), {}, s.st, None)
    x, o = new(v), new(w)
    s.env = dict(x=x, o=o, v=v, u=u, w=w, SharedVar=mk("cls", s.I.qual(SV)))
    for op in BIN:
        for nm, src, want in ((f"x {op} u", f"x {op} u", f"v {op} u"), (f"u {op} x", f"u {op} x", f"u {op} v")):
            s.eq("binary", nm, want, f"({src}).value")
            s.eq("binary", f"{nm}: result is a variable of its own", "True", f"type({src}) is SharedVar and ({src}) is not x")
            s.eq("separate", f"{nm}: operand", "v", f"r = {src}\nreturn x.value")
        s.eq("inplace", f"x {op}= u", f"v {op} u", f"x {op}= u\nreturn x.value")
        s.eq("inplace", f"x {op}= u, seen by the other holder", f"v {op} u", f"y = x\ny {op}= u\nreturn x.value")
        s.same("inplace", f"x {op}= u: same variable", x, f"x {op}= u\nreturn x")
        s.eq("separate", f"x {op}= u: other variables", "w", f"x {op}= u\nreturn o.value")
    for op in ("==", "!=", "<", "<=", ">", ">="):
        s.eq("compare", f"x {op} u", f"v {op} u", f"x {op} u")
        s.eq("compare", f"u {op} x", f"u {op} v", f"u {op} x")
        s.eq("compare", f"x {op} o", f"v {op} w", f"x {op} o")
    for nm, src, want in (("-x", "(-x).value", "-v"), ("+x", "(+x).value", "v"), ("abs(x)", "abs(x).value", "abs(v)"), ("round(x, 2)", "round(x, 2).value", "round(v, 2)"), ("round(x)", "round(x).value", "round(v)"), ("bool(x)", "bool(x)", "bool(v)"),
                          ("truth of x", "u if x else w", "u if v else w"), ("divmod", "tuple([z.value for z in divmod(x, u)])", "divmod(v, u)"),
                          ("reflected divmod", "tuple([z.value for z in divmod(u, x)])", "divmod(u, v)"), ("int(x)", "int(x)", "int(v)"), ("float(x)", "float(x)", "float(v)"), ("str(x)", "str(x)", "str(v)"), ("complex(x)", "complex(x)", "complex(v)")):
        s.eq("unary", nm, want, src)
    s.eq("unary", "negative value: abs", "u", "x.setval(-u)\nreturn abs(x).value")
    for fn in ("floor", "ceil", "trunc"):
        s.eq("unary", fn, s.ev(f"math.{fn}(v)").value, f"math.{fn}(x).value")
    # the operators that differ for negative numbers and fractions only
    import math
    for val in (-2.5, -0.5, 2.5, -3.0):
        for fn in ("floor", "ceil", "trunc"):
            s.eq("unary", f"{fn} of {val}", repr(getattr(math, fn)(val)), f"x.setval({val})\nreturn math.{fn}(x).value")
        for src, want in (("round(x).value", round(val)), ("abs(x).value", abs(val)), ("int(x)", int(val)), ("bool(x)", bool(val))):
            s.eq("unary", f"{src} of {val}", repr(want), f"x.setval({val})\nreturn {src}")
    for a, b in ((-7, 3), (7, -3), (-7, -3), (0, 5)):
        for op in BIN:
            if op in ("<<", ">>") and b < 0 or op == "**":
                continue
            s.eq("binary", f"{a} {op} {b}", f"({a}) / ({b})" if op == "/" else repr(eval(f"{a} {op} {b}")), f"x.setval({a})\nreturn (x {op} {b}).value")
            if not (b == 0 or op in ("<<", ">>") and a < 0 or op in ("//", "%", "/") and a == 0):
                s.eq("binary", f"{b} {op} {a} reflected", f"({b}) / ({a})" if op == "/" else repr(eval(f"{b} {op} {a}")), f"x.setval({a})\nreturn ({b} {op} x).value")
    for src in ("-x", "+x", "abs(x)", "round(x, 2)"):
        s.eq("separate", f"{src}: result is a variable of its own", "True", f"({src}) is not x")
        s.eq("separate", f"{src}: operand", "v", f"r = {src}\nreturn x.value")
    s.eq("inplace", "setval", "u", "x.setval(u)\nreturn x.value")
    s.eq("inplace", "setval, seen by the other holder", "u", "y = x\nx.setval(u)\nreturn y.value")
    s.same("inplace", "setval: same variable", x, "x.setval(u)")
    s.eq("separate", "setval: other variables", "w", "x.setval(u)\nreturn o.value")
    s.eq("separate", "rebinding breaks the link", "v", "y = x\ny = y + u\nreturn x.value")
    return ck.finish()


if __name__ == "__main__":
    run(main)
