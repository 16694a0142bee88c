"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os

CS = "carbon/simulators/carbon_simulator.py"
UI = "carbon/carbon_order_ui.py"
R = "carbon/routers/"
props = []


def P(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(obs)
    a["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


P("C01", "Quotes and read-only queries never change the order book",
  "A trade request made with execution switched off, and every reporting query of the simulator or of an order view, leaves every order (balances, capacities, links, enabled state) and the set of orders exactly as it found them. This holds for every matching method, both trade directions, with or without a limit, and for every argument.",
  ["inputs", "configurations", "histories"], "all quote arguments x matching methods x trade directions x order books, and all read-only members of the order view",
  "Tests compare a few order books before and after a few quotes; a write hidden behind a rare branch (limit given, linked order overfilled, particular matcher) is never executed by them.",
  [CS, UI, "carbon/order.py"], [("trade execution gate", CS + " _trade"), ("order-view queries", UI)],
  [("orders", "order book keyed by position id", CS)], ["CarbonSimulatorUI.orders after a call with execute=False"])

P("C02", "A trade whose limit is not met is never executed",
  "When a limit price or a limit amount is given, orders are changed only if the average price achieved is at or better than the limit from the trader's side, where the achieved price is the one reported for the trade, a limit amount is the price that amount implies, and giving both is rejected. The trade record says whether the limit failed, and a failed limit is reported as not executed.",
  ["inputs", "configurations"], "all limits x amounts x pair conventions x matching methods x trade directions",
  "The comparison depends on four conventions at once (direction, base/quote, matcher, price convention); tests sample one or two combinations with one matcher.",
  [CS, "carbon/pair.py"], [("limit gate", CS + " _trade"), ("limit comparison", "carbon/pair.py limit_is_met")],
  [], ["orders after a limit trade", "trade log columns exec/limitfail/price"])

P("C03", "An executed trade moves exactly the logged amounts between linked orders",
  "For every route of an executed trade the order that sells is debited once by exactly the sold amount logged for that route and, if it is linked to another order, that other order is credited once by exactly the bought amount logged; no other balance changes. The capacity of an order never changes except that a credited order filled beyond its capacity gets its new balance as capacity.",
  ["inputs", "histories", "configurations"], "all trades x order books x matching methods x directions",
  "Tests check end balances of a few trades in one matcher; swapped legs, double credits or a wrong link only show for particular matcher/direction/link combinations.",
  [CS], [("per-route settlement", CS + " _trade")], [("y / y_int", "current balance and capacity of an order", "carbon/order.py")],
  ["orders and trade log after execution"])

P("C04", "Only eligible orders are offered to the matcher",
  "The matcher is given exactly the orders that belong to the traded pair in either quoting direction, sell the token leaving the system, are enabled, hold a strictly positive balance and, when the caller restricts positions, are among those positions; and each matched route is settled against the order it was quoted on.",
  ["inputs", "histories", "configurations"], "all order books x trade requests x position restrictions",
  "Eligibility is a conjunction of five conditions over arbitrary books; tests use books in which most of the conditions are trivially satisfied.",
  [CS], [("order filter and id map", CS + " _trade")], [], ["orders handed to the matcher"])

P("C05", "Trade and order options reach the code that honours them unchanged",
  "Every option of a trade request (pair, execution, in-pair, limits, order threshold, position restriction, partial fills) takes effect unchanged whichever equivalent way the request is made: positive amounts, negative amounts on the mirror operation, or the trader-side names. Order- and strategy-creation options likewise take effect unchanged, and threshold and partial-fill options reach the matching step of every matcher that supports them.",
  ["inputs", "configurations"], "all option values x request spellings x matching methods",
  "Each dropped or swapped option is visible only for non-default values in one spelling of the call, which the tests do not enumerate.",
  [CS, R + "alpha_router.py", R + "exact_base_router.py", R + "base_router.py"],
  [("mirror calls and aliases", CS + " amm_buys/amm_sells/trader_*"), ("matcher call", CS + " _trade")], [], ["arguments received by the matcher"])

P("C06", "Errors are contained exactly as configured",
  "With raise-on-error off, every order-creation, trade and state operation answers a failed request with a result flagged unsuccessful that carries the error, never with an exception and never flagged successful; with raise-on-error on, the original exception always propagates. No failure is swallowed silently.",
  ["inputs", "configurations", "fault_sequences"], "all requests x failure points x the raise-on-error setting",
  "Each failure point is a separate path; tests trigger a handful.",
  [CS], [("exception handlers", CS + " public operations")], [], ["return value / exception of public operations"])

P("C07", "A rejected request leaves the order book unchanged",
  "When a request to add an order, add a strategy or trade is rejected (bad token, missing pair, missing liquidity, inconsistent limits, invalid range or amount, unsupported routing), no order has been added, removed or modified by that request.",
  ["inputs", "fault_sequences", "histories"], "all rejection points of the mutating operations x order books",
  "Tests check that an error is reported, not that every earlier effect of the same call was withheld for each rejection point.",
  [CS, "carbon/order.py"], [("validation before store", CS + " add_order/add_strategy/_trade")], [], ["order book after a failed request"])

P("C08", "Order-book linkage stays consistent",
  "Every stored order is filed under its own id with a fresh id, a single order is linked to itself, the two orders of a strategy are linked to each other and sell the two different tokens of one pair, and deleting a position removes it together with the order linked to it and nothing else.",
  ["histories", "inputs"], "all sequences of add/delete operations",
  "Linkage is an invariant over all histories; tests look at one strategy at default ids.",
  [CS, "carbon/order.py"], [("id allocation and linkage", CS + " add_order/add_strategy/delete_order")],
  [("linked_to_id", "id of the order credited when this order trades", "carbon/order.py")], ["orders dict and returned frames"])

P("C09", "Independent simulators and containers share no mutable state",
  "Two simulators, routers, order views, curve containers or other objects built independently never share a mutable component: nothing done to one (adding orders, trading, changing settings) is visible through another, and no call changes the default arguments of a later call.",
  ["histories", "programs"], "all object constructions and interleavings of operations on independent objects",
  "Sharing shows only when two objects live at the same time and are used alternately, which tests never do.",
  ["carbon/", "benchmark/core/"], [("dataclass defaults, default arguments, class attributes", "carbon/**")], [], ["class and function definitions"])

P("C10", "Matching never modifies the orders it is given",
  "Computing a match (exact, fast or alpha matcher, by source or by target) never changes any order it looks at nor adds to or removes from the list of orders it was given; only the simulator's settlement step changes balances.",
  ["inputs", "configurations"], "all books x amounts x matchers x directions",
  "A modification is only visible if a caller re-reads orders after a quote in the affected matcher and branch.",
  [R], [("match_by_src / match_by_target", R + "*")], [], ["orders after matching"])

P("C11", "Matching, pricing and curve results are reproducible",
  "Order pricing, matching, trading, curve-container and optimizer results depend only on their inputs and the state of the objects involved: not on the clock, random numbers, object identities or the iteration order of unordered collections.",
  ["programs", "inputs", "configurations"], "all runs and interpreter hash seeds",
  "Two runs in one test process share the hash seed; clock or hash dependence does not show.",
  ["carbon/simulators/carbon_simulator.py", "carbon/routers/", "carbon/tools/", UI, "carbon/order.py", "carbon/pair.py"],
  [("all functions of the trading and curve core", "carbon/**")], [], ["call sites of nondeterministic primitives, iterations over sets"])

P("C12", "Token-pair conversions follow the pair's price convention",
  "For every pair, amounts, prices and limits are converted by the price convention 'quote tokens per base token': the other token, base/quote tests, price conversion (and its inverse in the opposite numeraire), amount conversion in both directions, reversal of the pair, and the order in which a buy or sell limit is compared are mutually consistent for both tokens and unknown tokens are rejected.",
  ["inputs"], "all pairs, tokens, prices, amounts, sides",
  "Consistency is between functions and over both tokens and sides; tests pin single values.",
  ["carbon/pair.py"], [("conversion methods", "carbon/pair.py CarbonPair")], [], ["CarbonPair methods"])

P("C13", "Order parameters define one curve however the order is specified",
  "An order created from a start and end price, a width, or the internal curve parameters describes the same bonding curve: its curve parameters are the square-root end prices in the convention of the token sold, lower price first, an out-of-order range is normalised or rejected in the same way everywhere, and the order view's price bounds reproduce the prices the order was created with.",
  ["inputs"], "all prices, tokens, pairs and constructors",
  "Agreement between constructors is a universally quantified equation; tests compare a few numbers.",
  ["carbon/order.py", UI, CS], [("order construction", "carbon/order.py"), ("view constructors", UI)], [], ["A, B, p_high, p_low, pa, pb"])

P("C14", "All matchers and the order view price a swap by the same formula",
  "For an order with given curve parameters and balances, the input needed for a given output, the output obtained for a given input and the marginal price are the same function of those quantities in the order view, in the fast, alpha and exact matchers, and in the benchmark reference, up to rounding.",
  ["inputs"], "all curve parameters, balances and trade sizes",
  "Equality of formulas over all inputs; tests compare matchers on a few books to a tolerance.",
  [UI, R + "fast_router.py", R + "alpha_router.py", R + "exact_base_router.py", R + "exact_router_x0y0n.py", "benchmark/core/trade/spec.py"],
  [("swap formulas", "dyfromdx/dxfromdy, amt_by_src/amt_by_target, dxdy, spec")], [], ["return values of the formulas"])

P("C15", "Order-curve functions are mutually consistent",
  "On an order view the curve maps and their inverses compose to the identity, trade sizes are differences of curve points, the marginal price is the slope of the curve, the effective price is the ratio of the amounts traded, and at full, empty and invariant-defining points the curve meets its stated end prices and capacities.",
  ["inputs"], "all curve parameters and curve points",
  "Functional identities over all reals; tests evaluate a few points.",
  [UI], [("curve functions", UI + " CarbonOrderUI")], [], ["curve functions of the order view"])

P("C16", "Curves, pairs, containers and graphs behave as values",
  "Operations that derive a new curve, pair, container, filtered view or graph from existing ones never modify the originals, and objects documented as immutable are never changed after construction.",
  ["histories", "programs"], "all operation sequences on value objects",
  "Needs the original to be re-inspected after each derived operation.",
  ["carbon/tools/cpc.py", "carbon/pair.py", "carbon/tools/arbgraphs.py", "carbon/tools/simplepair.py"],
  [("derivation methods", "carbon/tools/cpc.py CPCContainer/ConstantProductCurve, carbon/pair.py")], [], ["fields of the receiver after a call"])

P("C17", "Serialised curves and orders round-trip field by field",
  "The record a curve, order or container is exported to contains every field needed to rebuild it, under the names the matching import reads, and import assigns each record entry to the field it was exported from without conversion. Parameter sets keep their values and defaults apart when they are copied or exported, and data-class records list every field once.",
  ["inputs"], "all curves, orders, containers, parameter sets",
  "A field left out or crossed over is only visible when its value differs from the default.",
  ["carbon/tools/cpc.py", UI, "carbon/sdk/carbonsdk.py"], [("asdict/fromdict, as_dict/from_dict", "carbon/tools/cpc.py"), ("to/from SDK", UI)], [], ["exported records"])

P("C18", "Constant-product curve formulas and constructors agree",
  "Every constructor of a constant-product curve yields the curve whose invariant, price, holdings and reserve bounds are those of its arguments, and the derived quantities (price, minimum and maximum price, actual holdings, leverage, swap functions, invariant error) are the same function of the invariant and virtual balances everywhere they are computed.",
  ["inputs"], "all curve parameters and constructor arguments",
  "Algebraic identities between many constructors and properties over all reals.",
  ["carbon/tools/cpc.py"], [("constructors and derived quantities", "carbon/tools/cpc.py ConstantProductCurve")], [], ["constructors and properties"])

P("C19", "Optimizer results account exactly for the curve trades they contain",
  "An optimizer result's per-curve trades are the differences between initial and optimal curve points, token flows are their sums, a curve is never moved outside its liquidity bounds by the optimizer's curve functions, and result reports derive from the same trade vectors.",
  ["inputs"], "all containers, curves and prices",
  "Accounting identities over arbitrary containers; tests assert rounded totals of a few.",
  ["carbon/tools/optimizer.py", "carbon/tools/cpc.py"], [("result assembly", "carbon/tools/optimizer.py")], [], ["result objects"])

P("C20", "Arbitrage-graph amounts, prices and reversals are consistent",
  "On an arbitrage graph, converting an amount along an edge or cycle multiplies by the edge's price in the direction of travel and divides in the other, reversing an edge or cycle inverts it, combining edges adds their amounts, and amounts of different tokens are never combined.",
  ["inputs", "histories"], "all graphs, edges, cycles and amounts",
  "Identities over all edges/cycles and both directions.",
  ["carbon/tools/arbgraphs.py"], [("Amount/Edge/Cycle/ArbGraph methods", "carbon/tools/arbgraphs.py")], [], ["edges, cycles, amounts"])

P("C21", "Benchmark integer arithmetic rounds in favour of the pool",
  "In the fixed-point trade and match functions every amount paid out is rounded down and every amount taken in is rounded up, at every step, and the results equal the ideal formulas up to that rounding.",
  ["inputs"], "all uint128/uint256 inputs and encodings",
  "Rounding direction matters only for inputs that do not divide exactly; test vectors hide one-unit errors within tolerances.",
  ["benchmark/core/trade/impl.py", "benchmark/core/match/impl.py", "benchmark/core/trade/spec.py"], [("mulDivF/mulDivC use", "benchmark/core/trade/impl.py")], [], ["impl functions"])

P("C22", "Benchmark integer arithmetic never silently exceeds its word size",
  "Every sum, product, difference and quotient of the fixed-point implementation passes through an operation that checks its result against the unsigned word size, and conversions to the trade amount type check the narrower bound, so an overflow or underflow is always detected.",
  ["inputs"], "all operands", "Overflow needs extreme operands that the vectors do not contain.",
  ["benchmark/core/trade/impl.py", "benchmark/core/match/impl.py"], [("checked arithmetic", "benchmark/core/trade/impl.py")], [], ["impl functions"])

P("C23", "Order encodings used by the benchmark and the contract interface agree",
  "Encoding an order to its on-chain form and decoding it again gives back the liquidity, capacity and rates up to the encoding's rounding: scale factors, field order and the capacity formula used when encoding are the exact inverse of those used when decoding, in the benchmark and in the contract interface classes alike. A strategy read from the contract interface gives, and is filed in a simulator as, exactly its two linked orders with its prices, budgets and fill levels.",
  ["inputs"], "all orders and encodings", "Inverse relations over all inputs.",
  ["benchmark/core/trade/impl.py", "carbon/sdk/carbonsdk.py", "carbon/helpers/floatint.py", "carbon/carbon_order_ui.py", "carbon/simulators/carbon_simulator.py"], [("encode/decode", "benchmark/core/trade/impl.py, carbon/sdk/carbonsdk.py")], [], ["encode/decode functions"])

P("C24", "Contract-interface calls send what the caller asked for",
  "Every operation of the contract-interface client sends its request to the operation of the same name with each caller argument in the position the operation expects, tokens resolved through the token registry from the pair given by the caller, and no caller argument is dropped or replaced.",
  ["inputs", "configurations"], "all client operations and arguments",
  "The client needs a live server; no test runs it.",
  ["carbon/sdk/carbonsdk.py", "carbon/sdk/sdkbase.py", "carbon/sdk/sdktoken.py"], [("request assembly", "carbon/sdk/carbonsdk.py")], [], ["request path and parameter list"])

P("C25", "Secrets and the outside world are touched only where declared",
  "Private keys and API keys never flow into printed output, logs, error texts or files, and the trading, pricing, routing and curve code performs no network, process, dynamic-code or file access; only the declared data-import, client, plotting and export helpers do.",
  ["programs", "inputs"], "all functions of the package",
  "An effect analysis over all code; tests run with the network unavailable and never look.",
  ["carbon/"], [("I/O call sites", "carbon/**"), ("key handling", "carbon/sdk, carbon/helpers/cryptocompare.py")], [], ["call sites"])

P("C26", "Every selectable mode is handled and unknown modes are rejected",
  "Wherever behaviour is selected by one of a documented set of constants or option strings, every documented choice leads to its own defined behaviour and any other value is rejected with an error rather than silently treated as one of the choices.",
  ["inputs", "configurations"], "all values of mode arguments",
  "Tests exercise the documented choices, rarely the complement.",
  ["carbon/"], [("constant dispatch", "carbon/**")], [], ["dispatch sites"])

P("C27", "No operation fails for reasons internal to the code",
  "No reachable operation can fail because it refers to a name, attribute, parameter or member that does not exist, calls a function with arguments it cannot accept, or reads a variable before it is set; failures are only the deliberate rejections.",
  ["programs", "inputs"], "all functions and paths of the package",
  "Error branches and rarely used members are not executed by any test.",
  ["carbon/", "benchmark/core/", "CarbonCurves.py"], [("all functions", "carbon/**")], [], ["names, attributes, call signatures"])

P("C28", "Shared variables compute like the values they hold",
  "Every arithmetic, comparison and conversion operator of a shared variable gives the result of the same operator on the held value with operands in the right order, and updates propagate to the holder and to nothing else.",
  ["inputs"], "all operators and operand types", "Operator tables are long and tests sample few entries.",
  ["carbon/helpers/sharedvar.py"], [("operator table", "carbon/helpers/sharedvar.py")], [], ["operator methods"])

P("C33", "A match's routes account for the request",
  "For every request and book, the routes a matcher answers name each order at most once, by the position it was offered under, best price first for the fast matcher, among the allowed number of best offers for the alpha matcher (a deeper order replacing a smaller one only when those cannot fill the request); each route's input and output are that order's own swap amounts for the part of the request it takes, no order is asked for more than its balance, orders that are empty, too expensive for the amount or not among the preselected ones get no route, the parts add up to the request (or, when partial fills are allowed, to all there is; otherwise a request that cannot be filled is rejected), and running totals are the sums so far.",
  ["inputs"], "all amounts, balances and curves; orders in the book",
  "Tests check a few numeric books; which order is exhausted, left out or listed last changes the path taken, and settlement trusts every field of a route.",
  [R + "fast_router.py", R + "exact_base_router.py", R + "alpha_router.py"], [("match", R + "fast_router.py, exact_base_router.py"), ("gen_one_order_selector", R + "alpha_router.py")],
  [], ["routes, totals, preselection"])

N = lambda *a, **k: P(*a, **k)
N("C29", "Matching finds the best achievable split across orders",
  "For every book and amount the exact and alpha matchers allocate the trade so that the trader's total is optimal among all allocations to the eligible orders, to within the stated tolerance.",
  ["inputs"], "all books and amounts", "Optimality quantifies over all alternative allocations.",
  [R], [("goal seek / bisection", R + "exact_base_router.py, alpha_router.py")])
N("C30", "Numeric solvers terminate with a result within tolerance or report failure",
  "Every iterative solver of the routers, curves and optimizers terminates within its iteration bound and returns a value whose residual is within its tolerance, or reports non-convergence.",
  ["inputs"], "all functions and starting points", "Convergence is a property of real analysis and floating point.",
  [R + "exact_base_router.py", "carbon/tools/optimizer.py"], [("goalseek, match, gradient descent", "carbon/tools/optimizer.py")])
N("C31", "Repeated fills and refills never let the trader extract value",
  "For every sequence of trades against a strategy, buying and selling back never increases the trader's holdings beyond rounding.",
  ["histories", "inputs"], "all trade histories", "An inequality over real-valued histories.",
  [CS, R], [("trade settlement", CS + " _trade")])
N("C32", "Simulated price paths have the requested statistics",
  "Generated paths have the requested drift, volatility and sampling, and interpolation returns values between the sampled prices.",
  ["inputs"], "all parameters and random draws", "A statement about random samples.",
  ["carbon/helpers/pathgenerator.py", "carbon/helpers/pathinterpolation.py"], [("path generation", "carbon/helpers/pathgenerator.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in props:
            fh.write(json.dumps(p) + "\n")
    print(len(props), "properties")
