"""writes MANIFEST.json from the checks present in checks/ and the table below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = "gated value-flow analysis of the Python syntax tree (global value numbering with rational normal forms), effects compared with the specification"
TECH = {
    "C01": "interprocedural effect analysis of every quote and reporting entry point (guarded writes to order objects)",
    "C06": "exception-flow analysis of every handler and every path leaving a public operation",
    "C07": "effect ordering analysis: no order-book write precedes a rejection on the same path",
    "C08": "value-flow of the keys, ids and links of every store into the order book",
    "C09": "aliasing rule on default arguments, dataclass defaults and class attributes, with mutation/return escape analysis",
    "C10": "interprocedural effect analysis of the matchers",
    "C11": "taint analysis from nondeterministic sources and unordered iteration",
    "C16": "purity analysis of deriving operations and write analysis of frozen classes",
    "C17": "gated value-flow of every field through export and import (global value numbering), compared field by field",
    "C22": "word-size rule: every arithmetic node of the fixed-point code is inside a checked operation",
    "C21": "rounding-direction type system over the fixed-point code",
    "C24": "argument value-flow from client methods to request dispatch",
    "C25": "source-sink taint analysis and who-may-call rules over the import graph",
    "C26": "mode-coverage analysis: behaviour under each documented constant and under an unknown value",
    "C27": "name, attribute, arity and definite-assignment resolution over the whole project",
    "C28": "operator-table value-flow analysis",
}
NOTE = {}
NA = {
    "C29": "optimality of an allocation quantifies over all allocations of real amounts to an unbounded set of orders and over an iterative drop-and-resolve loop; no argument on the shape of the code bounds it (the marginal-price formulas it rests on are decided under C14)",
    "C30": "termination and residual of the floating-point iterations depend on run-time values; no static bound in reach (scipy/cvxpy solvers are external)",
    "C31": "an inductive statement over unbounded histories of real-valued trades with rounding; the per-step clauses (formula, settlement, rounding direction) are decided under C03, C14 and C21, the history statement itself is not decidable from the shape of the code",
    "C32": "statistical statements about random paths have no static argument",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in NA and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append({
                "property": i, "quick_cmd": f"python3 run_check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {i}",
                "technique": TECH.get(i, FLOW), "level": "other",
                "level_note": NOTE.get(i, "static analysis of the current source: every obligation enumerated by the rules is decided for all inputs within the analysis' model "
                                         "(rational arithmetic for rounding, external libraries uninterpreted); undecided obligations are counted in the evidence"),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import vf.interp'", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. All checks are static analyses of /repo's current sources; nothing of /repo is executed or imported."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
