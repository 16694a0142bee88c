P = {
"C01": "Entry points: every trading method with `execute=False`, every reporting member (enumerated from the class bodies: all public members that are not declared operations), every order-view preview. The effect log of the value-flow pass must hold no write that reaches an order, the book, the trade log or a view. Bounds: none on amounts or book; order book of arbitrary length.",
"C02": "`_trade` is analysed with opaque matcher and arbitrary routes. Every write to an order must be guarded by a condition that implies 'reported price at or better than the limit', in each direction; the trade record's flags are compared as terms; the implied limit price of a limit amount is compared with the pair's convention.",
"C03": "`_trade`: the effects of the settlement loop, per route, are compared with the specification (debit = logged output, credit = logged input on the linked order, capacity only raised on overfill), and no other write may exist. Logged columns are compared with the same route's fields.",
"C04": "The list handed to the matcher is compared as a filtered sequence (a canonical 'all orders of the book that satisfy …' term) with the specification, so any rewrite of the comprehension with the same filter is accepted and any extra or missing condition shows.",
"C05": "Call-argument flow: amount, threshold, partial fill, pair, position restriction from each public operation to the matcher; mirrored and aliased operations must produce the same matcher call, settlement and outcome; orders and strategies must be stored with exactly what was asked for.",
"C06": "Exception flow: handler structure of each public operation, effects and return value of the handler under both settings of `raiseonerror`; rule *protected* finds operations on the caller's arguments that can fail outside the catch-all; rule *swallow* enumerates every handler of the core.",
"C07": "For each rejecting path (raise or failure inside the operation) no earlier effect on the book may be recorded on the same path; each documented condition must reject.",
"C08": "Storage effects of every creating/deleting operation compared with the linkage specification (ids fresh, links mutual, deletion of exactly the pair).",
"C09": "mod/ref summaries of all functions: no write to module-level, class-level or default-argument objects; no mutable class-level default; no capture of another object's containers that either side modifies.",
"C10": "mod/ref and effect analysis of all routers and matchers from their public entry points, orders and lists as roots.",
"C11": "Two taint analyses: nondeterministic sources (clock, random, id/hash, environment) to anything but declared sinks; iteration order of sets to anything order-visible; no memoisation or hidden module state.",
"C12": "Each conversion/limit method on a symbolic pair and each side compared as a rational term with the price convention.",
"C13": "Order and view constructors, in each way of specification, compared with the curve parameters of the two square-root end prices; agreement of order, view and stored order.",
"C14": "Swap functions of view, fast, exact and alpha matcher, and benchmark, evaluated on the same symbolic curve and compared with one formula; the exact split: amounts add up and marginal prices are equal (as rational identities).",
"C15": "Mutual inverses, intercepts, slopes, effective prices, previews and executed trades of order views as rational identities on a curve with symbolic parameters and sign facts.",
"C16": "mod/ref with declared modifiers: all other operations must leave object and arguments unchanged; nothing internal that is modified later may be handed out; immutable and set-once objects.",
"C17": "Each export is composed with its import on symbolic objects; every field of the result is compared as a term with the original's.",
"C18": "All CPC constructors, derived quantities, swap and execute functions, inverter, pairs and container selections as rational identities on symbolic curves (regions of the gates decided by sign facts).",
"C19": "Optimizer methods are evaluated on five symbolic curves (three tokens) and three ordered curves of one pair; the numeric solvers (`numpy.linalg`, `goalseek`, cvxpy) are replaced by *arbitrary answers*, and what the code reports about them (flows, trades, instructions, adjusted curves, status) is compared with the points of the curves at these answers. The convex problem's constraints are collected from the calls that build it and compared as polynomials.",
"C20": "Edges, amounts, paths, cycles, transports and statistics of arbitrage graphs on symbolic graphs of known shape (up to five edges), compared as rational terms; state recorded once; refusals.",
"C21": "Every value of the fixed-point trade functions is mapped to the rational expression it approximates and the side it lies on (rounding-direction types over sum, product, floor and ceiling division; a divisor used twice is a free positive quantity that must cancel), compared with the ideal formula; fallbacks, rates (loop invariant of the step-down loop), fast and best matching of the reference on symbolic rates.",
"C22": "Every arithmetic node below a result is checked against the word size on the path that returns it, or is the double-width numerator of a checked quotient; primitives and amount conversion at and around the bounds; mantissa/exponent code.",
"C23": "Encoders and decoders of contract orders as terms with floor/shift operators; unequal terms are separated by a point (`vf/exact.py`), equality only by normal form; benchmark and contract-interface agree. A strategy record with symbolic prices and budgets is followed through `from_SDK` and `add_fromsdk` to the fields of the orders stored.",
"C24": "Each client operation is followed to the library call that sends the request; address, headers, every entry of the parameter record and the answer are compared with the caller's arguments.",
"C25": "Resolution of every call target to find outside access (network, process, files, environment, dynamic code) against the per-module declaration; taint of keys to output, logs, errors, files, texts.",
"C26": "Selectors are discovered (a parameter, field or local compared with two or more constants or a named constant, or looked up in a literal table). For the abstract value 'none of the choices' no normal end may be reached after a test of it; each choice of the family must reach one.",
"C27": "Every name, attribute of known-class objects, call signature, tuple unpacking and local variable read of the tree. 13 undecided reads rest on loop-nonempty coincidences.",
"C28": "Every operator of the shared variables on symbolic values and operands, with object identity on the abstract heap.",
"C33": "The matchers on symbolic books of one to three orders whose swap functions are *arbitrary* (a table of symbols; the formulas themselves are C14): who is exhausted, empty, too expensive, not offered or listed last is fixed by sign facts, so every comparison, sort and loop exit is decided by the sign domain and each field of each route is compared as a rational term; the alpha matcher end to end (ranking, valuation and preselection tables included, `vf/frame.py`), its preselection also on ranked lists by itself; refusals and partial fills. A scene that cannot be decided for all parameters is looked at in single points, where only differences count.",
}
