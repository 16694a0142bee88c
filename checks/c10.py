from checks.trade import *

RULES = {
    "orders": "no write, deletion or in-place operation of a matcher reaches an order it was given",
    "list": "no in-place operation of a matcher reaches the list of orders it was given",
    "external": "neither the orders nor their list are handed to a library function that modifies its argument",
}

ROUTERS = ("ExactRouterX0Y0N", "FastRouter", "AlphaRouter")
MATCH = ("match_by_src", "match_by_target", "match")
PARTS = ("amt_by_src", "amt_by_target", "dxdy", "get_geoprice", "get_trade_amounts_by_source_amount", "get_trade_amounts_by_target_amount",
         "handle_subfunctions_src", "handle_subfunctions_target", "sufficient_liquidity_exists", "indexes", "prod", "frmt", "check_partial_swaps")
HEAVY = {"amt_by_src", "amt_by_target", "dxdy", "handle_subfunctions_src", "handle_subfunctions_target", "b_src", "frmt"}

MUTATING = {"random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop", "heapq.heappushpop", "heapq.heapreplace", "bisect.insort",
            "bisect.insort_left", "bisect.insort_right", "numpy.put", "numpy.copyto", "numpy.place", "operator.setitem", "operator.delitem",
            "operator.iadd", "operator.iconcat", "setattr", "delattr", "object.__setattr__", "numpy.random.shuffle"}
PURE_ATTRS = {"orders"}


def place(I, t, O):
    """'list' for the order list itself, 'orders' for one of its orders or what an order holds"""
    if t is None:
        return None
    if t is O:
        return "list"
    if t.op == "obj":
        return None
    if t.op == "ite":
        return place(I, t.args[1], O) or place(I, t.args[2], O)
    if t.op in ("item", "elem", "attr", "last", "first") and isinstance(t.args[0], T) and contains(t, O):
        return "orders" if place(I, t.args[0], O) or t.op == "attr" else None
    return None


def one(ck, cn, m, opaque, params):
    I = new_interp(opaque=opaque)
    st = I.state()
    O = sym("ORDERS")
    I.settype(O, ("list", ("cls", I.qual("Order"))))
    if I.p.find_member(I.p.classes[I.qual(cn)], m) is None:
        return
    r = I.construct(I.qual(cn), [], {"parameters": params} if params is not None else {}, st, None)
    st.heap[(r, "f", "orders")] = O
    I.effects.clear()
    k, (kind, node) = I.p.find_member(I.p.classes[I.qual(cn)], m)
    name = f"{cn}.{m}"
    try:
        if kind == "prop":
            I.getattr(r, m, st, None)
        else:
            given = {p: sym(p.upper()) for p in required(kind, node)}
            for p in ("threshold_orders", "support_partial"):
                if p in [a.arg for a in node.args.args]:
                    given[p] = sym(p.upper())
            if m == "match" and cn == "FastRouter":
                return          # analysed through match_by_src / match_by_target, which choose the pricing function
            I.call_method(r, m, [], given, st)
    except Dead:
        pass
    except (Budget, RecursionError) as e:
        ck.undecided("orders", name, str(e))
        return
    ck.absorb(I)
    n = 0
    for e in I.effects:
        if e.kind in ("setattr", "setitem", "delitem", "delattr", "mutcall"):
            n += 1
            w = place(I, e.base, O)
            if w:
                ck.bad(w, f"{name}:{e.fn.split('.')[-1]}:{e.key if isinstance(e.key, str) else 'entry'}",
                       f"{e.kind} of {brief(e.base, 80)} while matching", e.where)
        elif e.kind in ("ext_call", "opaque_call") and e.value is not None and e.kind == "ext_call":
            f = e.key
            if f in MUTATING or f.split(".")[-1] in ("shuffle", "heapify", "heappop", "heappush", "insort", "setattr", "__setattr__"):
                for a in e.value.args:
                    if isinstance(a, T) and place(I, a, O):
                        ck.bad("external", f"{name}:{f}", f"{f} is given {brief(a, 80)}", e.where)
    ck.ok("orders", name, f"{n} writes reach only objects of the matcher")
    ck.ok("list", name)
    ck.ok("external", name)


def main():
    ck = Check("C10", "Matching never modifies the orders it is given", RULES, floor=40,
               assumptions=["library functions other than the listed in-place ones do not modify their arguments"])
    for cn in ROUTERS:
        for m in MATCH:
            opq = HEAVY if cn != "FastRouter" else {"frmt"}
            for par in (None, sym("PARAMS")) if cn == "FastRouter" else (None,):
                guarded(ck, "orders", f"{cn}.{m}", lambda: one(ck, cn, m, opq, par))
        for m in PARTS:
            guarded(ck, "orders", f"{cn}.{m}", lambda: one(ck, cn, m, set(), sym("PARAMS")))
    return ck.finish()


if __name__ == "__main__":
    run(main)
