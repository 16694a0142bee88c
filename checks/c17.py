"""Exported records: what an object exports is what the matching import reads, field by field; each field of the
re-created object is compared, as a value term, with the field of the original (and views of the same data with each other)."""
from checks.c20 import *

RULES = {
    "curve": "a curve re-created from its record has every field of the curve, and the record has no others",
    "container": "a container re-created from its records or its table has the curves of the container, in order",
    "order": "an order view created from an order, or exported as contract parameters or as a curve, has the order's values",
    "fields": "records and tuples of data classes list every field once, under its own name",
    "params": "parameter sets keep values and defaults apart, and replicas have both",
    "pairs": "pairs and tokens are read back from the form they are written in",
}
CPCM = "carbon.tools.cpc"
UI = "carbon.carbon_order_ui"
FIELDS = ("k", "x", "x_act", "y_act", "pair", "cid", "fee", "descr", "constr")


class Rt(Sc):
    def __init__(self, ck, pos=(), strs=(), nonneg=()):
        Sc.__init__(self, ck, [sym(x) for x in pos], nonneg=[sym(x) for x in nonneg])
        GIVEN.update(list(pos) + list(strs) + list(nonneg))
        for x in strs:
            self.I.settype(sym(x), ("str",))
        self.env = {x: sym(x) for x in list(pos) + list(strs) + list(nonneg)}

    def cls(self, **kw):
        for n, q in kw.items():
            self.env[n] = mk("cls", self.I.qual(q))

    def put(self, name, src):
        """an object of the scene"""
        self.env[name] = self.do("return " + src)


def curves(ck):
    P = dict(k="k", x="x", x_act="xa", y_act="ya", pair="'AAA/BBB'", cid="c", fee="f", descr="d", constr="'pkpp'", params="{'exchange': e, 'L': g}")
    for nm, only in (("all fields given", set(P)), ("defaults", {"k", "x"}), ("no balances", set(P) - {"x_act", "y_act"}), ("no fee", set(P) - {"fee", "descr"})):
        s = Rt(ck, ("k", "x", "xa", "ya", "f", "g"), ("c", "d", "e"))
        s.cls(C=f"{CPCM}.ConstantProductCurve")
        s.put("o", "C(%s)" % ", ".join(f"{n}={v}" for n, v in P.items() if n in only))
        for a in FIELDS:
            s.eq("curve", f"{nm}: record {a}", s.ev(f"o.{a}").value, f"o.asdict()['{a}']")
            s.eq("curve", f"{nm}: re-created {a}", s.ev(f"o.{a}").value, f"C.from_dict(o.asdict()).{a}")
        s.eq("curve", f"{nm}: number of entries", "10", "len(o.asdict())")
        for a in ("exchange", "L"):
            if "params" in only:
                s.eq("curve", f"{nm}: parameter {a}", {"exchange": "e", "L": "g"}[a], f"C.from_dict(o.asdict()).params['{a}']")
                s.eq("curve", f"{nm}: P({a})", {"exchange": "e", "L": "g"}[a], f"C.from_dict(o.asdict()).P('{a}')")
        s.eq("curve", f"{nm}: number of parameters", "2" if "params" in only else "0", "len(C.from_dict(o.asdict()).params)")
        s.eq("curve", f"{nm}: price", s.ev("o.p").value, "C.from_dict(o.asdict()).p")
        s.eq("curve", f"{nm}: tkny", s.ev("o.tkny").value, "C.from_dict(o.asdict()).tkny")
    s = Rt(ck, ("k", "x"))
    s.cls(C=f"{CPCM}.ConstantProductCurve")
    s.put("o", "C(k=k, x=x, params={'a': {'b': k, 'c': x}, 'd': 1})")
    for p, w in (("a:b", "k"), ("a:c", "x"), ("d", "1"), (" a:b ", "k")):
        s.eq("curve", f"parameter {p!r}", w, f"o.P('{p}')")
    for p in ("z", "a:z"):
        s.eq("curve", f"missing parameter {p!r}", "7", f"o.P('{p}', 7)")
        s.eq("curve", f"missing parameter {p!r}, no default", "None", f"o.P('{p}')")


def containers(ck):
    def rowed(rows, st):
        o = s.I.new_obj("list")
        st.heap[(o, "c")] = mk("list", *rows)
        return o

    s = Rt(ck, ("k1", "k2", "k3", "x1", "x2", "x3"), ("c1", "c2", "c3"))
    s.cls(C=f"{CPCM}.ConstantProductCurve", CC=f"{CPCM}.CPCContainer")
    for i, p in ((1, "AAA/BBB"), (2, "BBB/CCC"), (3, "AAA/BBB")):
        s.put(f"o{i}", f"C(k=k{i}, x=x{i}, pair='{p}', cid=c{i}, fee={i}, descr='d{i}')")
    s.put("cc", "CC([o1, o2, o3])")
    s.eq("container", "number of records", "3", "len(cc.asdicts())")
    s.eq("container", "number of curves", "3", "len(CC.from_dicts(cc.asdicts()).curves)")
    for i in (1, 2, 3):
        for a in FIELDS:
            w = s.ev(f"o{i}.{a}").value
            s.eq("container", f"record {i}: {a}", w, f"cc.asdicts()[{i - 1}]['{a}']")
            s.eq("container", f"curve {i} re-created: {a}", w, f"CC.from_dicts(cc.asdicts()).curves[{i - 1}].{a}")
    # tables: a table made of records is known by them; an index is a column of its own
    kept = {}

    def keep(t, records):
        kept[t] = records
        return t

    def made(name, a, kw, st):
        if name in ("pandas.DataFrame.from_dict", "pandas.DataFrame.from_records", "pandas.DataFrame") and len(a) == 1 and not kw:
            return keep(mk("table", NONE, fresh_opaque("table")), a[0])

    def table(name, recv, a, kw, st):
        if recv.op != "table" or recv not in kept:
            return None
        if name == "set_index" and len(a) == 1 and a[0].op == "const" and not kw:
            return keep(mk("table", a[0], recv.args[1]), kept[recv])
        if name == "reset_index" and not a and not kw:
            return keep(mk("table", NONE, recv.args[1]), kept[recv])
        if name == "to_dict" and (a == [const("records")] and not kw or not a and kw == {"orient": const("records")}):
            return kept[recv] if recv.args[0] is NONE else fresh_opaque("without the index")
        rows = s.I.pieces_as_segs(kept[recv], st)
        if any(r.op != "seg" or r.args[1] is not TRUE or r.args[2].args for r in rows):
            return None
        if name in ("copy", "infer_objects", "convert_dtypes"):
            return recv
        if name == "head" and (not a or a[0].op == "const"):
            return keep(mk("table", recv.args[0], fresh_opaque("table")), rowed(rows[:int(a[0].args[1]) if a else 5], st))
        if name == "drop_duplicates":
            sub = a[0] if a else kw.get("subset", NONE)
            cols = [sub] if sub.op == "const" else [r.args[0] for r in s.I.pieces_as_segs(sub, st) if r.op == "seg"]
            if not cols or any(c.op != "const" for c in cols):
                return None
            if sub is NONE or const("cid") in cols:
                return recv                 # the identifiers of the scene differ
            # the columns named are free to be the same in every row: of such rows one stays
            return keep(mk("table", recv.args[0], fresh_opaque("table")), rowed(rows[:1], st))
        if name in ("sort_values", "sort_index") and len(rows) > 1:
            # the values are free, so there are rows that this order turns around
            return keep(mk("table", recv.args[0], fresh_opaque("table")), rowed(rows[::-1], st))

    def columns(b, name):
        if b.op == "table" and b in kept and name == "columns":
            return mk("tuple", *[const(x) for x in ("k", "x", "x_act", "y_act", "pair", "cid", "fee", "descr", "constr", "params") if const(x) is not b.args[0]])
    s.I.meth_hook, s.I.ext_hook, s.I.attr_hook = table, made, columns
    for nm, src in (("table", "CC.from_df(cc.asdf())"), ("table without index", "CC.from_df(cc.asdf().reset_index())")):
        s.eq("container", f"{nm}: number of curves", "3", f"len({src}.curves)")
        for i in (1, 2, 3):
            for a in ("k", "x", "x_act", "y_act", "pair", "cid", "fee", "descr"):
                s.eq("container", f"{nm}: curve {i} {a}", s.ev(f"o{i}.{a}").value, f"{src}.curves[{i - 1}].{a}")


def orders(ck):
    for tkn, oth in (("AAA", "BBB"), ("BBB", "AAA")):
        # an order selling tkn; prices in pair units
        s = Rt(ck, ("u", "t", "y", "z", "n"), ("id1",))
        s.put("b", "u**2")
        s.put("d", "t*(t + 2*u)")
        s.cls(V=f"{UI}.CarbonOrderUI", PR="carbon.pair.CarbonPair", D=f"{UI}.yzABSdata")
        s.put("p", "PR(tknb='AAA', tknq='BBB')")
        s.put("v", f"V(pair=p, tkn='{tkn}', B=b, S=d, yint=y+z, y=y, id=id1)")
        s.put("w", "V.from_order(v)")
        for a, w in (("pair.slashpair", "'AAA/BBB'"), ("tkn", f"'{tkn}'"), ("B", "b"), ("S", "d"), ("yint", "y+z"), ("y", "y"), ("id", "id1")):
            s.eq("order", f"view of a view, selling {tkn}: {a}", w, f"w.{a}")
        # as a curve: k = kappa, at the order's marginal price, bounded by the price it ends at
        c = "v.as_cpc"
        s.eq("order", f"as a curve, selling {tkn}: pair", "'AAA/BBB'", f"{c}.pair")
        s.eq("order", f"as a curve, selling {tkn}: k", "((y+z)/d)**2", f"{c}.k")
        s.eq("order", f"as a curve, selling {tkn}: balance sold", "y", f"{c}.{'x' if tkn == 'AAA' else 'y'}_act")
        s.eq("order", f"as a curve, selling {tkn}: other balance", "0", f"{c}.{'y' if tkn == 'AAA' else 'x'}_act")
        raw = "(b + d*y/(y+z))**2"        # token sold per other token
        s.eq("order", f"as a curve, selling {tkn}: price", raw if tkn == "BBB" else f"1/{raw}", f"{c}.p")
        s.eq("order", f"as a curve, selling {tkn}: price at the end", "b**2" if tkn == "BBB" else "1/b**2", f"{c}.p_{'min' if tkn == 'BBB' else 'max'}")
        # contract parameters
        for dn, decs in (("different decimals", (18, 6)), ("same decimals", (8, 8))):
            s.put("p2", f"PR(tknb='AAA', tknq='BBB').set_decimals({decs[0]}, {decs[1]})")
            s.put("v2", f"V(pair=p2, tkn='{tkn}', B=b, S=d, yint=y+z, y=y, id=id1)")
            dy, dx = decs if tkn == "AAA" else decs[::-1]
            for sx, args in ((0, ""), (48, "48"), (32, "sx=32")):
                m = f"10**(({dy}-{dx})//2)"
                m = f"{10 ** ((dy - dx) // 2)}" if dy >= dx else f"(1/{10 ** ((dx - dy) // 2)})"
                for a, w in (("y", f"y*{10 ** dy}"), ("z", f"(y+z)*{10 ** dy}"), ("A", f"int(d*{m}*{2 ** sx})"), ("B", f"int(b*{m}*{2 ** sx})"), ("S", f"{2 ** sx}")):
                    s.eq("order", f"contract parameters ({dn}, sx={sx}), selling {tkn}: {a}", w, f"v2.yzABS({args}).{a}")
        s.rejects("order", f"contract parameters without decimals, selling {tkn}", "v.yzABS()")
    s = Rt(ck, ("y", "z", "A", "B", "S"))
    s.cls(D=f"{UI}.yzABSdata")
    s.put("d", "D(y, z, A, B, S)")
    s.eq("order", "contract parameters as tuple", "(y, z, A, B, S)", "d.astuple")
    for a in "yzABS":
        s.eq("order", f"contract parameters as record: {a}", a, f"d.asdict['{a}']")
    s.eq("order", "contract parameters as record: entries", "5", "len(d.asdict)")
    for a, w in (("A_unscaled", "A/S"), ("B_unscaled", "B/S"), ("A_scaled", "A"), ("B_scaled", "B")):
        s.eq("order", f"contract parameters: {a}", w, f"d.{a}")
    # numbers written as records
    s = Rt(ck, ("n",), ("h",))
    s.cls(V=f"{UI}.CarbonOrderUI")
    for src, w in (("V.bn2int({'type': 'BigNumber', 'hex': '0xff'})", "255"), ("V.bn2int(n)", "n"), ("V.bn2int({'type': 'BigNumber', 'hex': '0x0'})", "0"), ("V.bn2intd({'a': {'type': 'BigNumber', 'hex': '0x10'}, 'b': n})['a']", "16"),
                   ("V.bn2intd({'a': {'type': 'BigNumber', 'hex': '0x10'}, 'b': n})['b']", "n"), ("len(V.bn2intd({'a': 1, 'b': n}))", "2"), ("V.bn2int({'type': 'other', 'hex': '0x1'})['hex']", "'0x1'")):
        s.eq("order", src, w, src)


def fields(ck):
    """every data class with an own asdict/astuple: one entry per field"""
    s = Rt(ck, ("a", "b", "c", "d"))
    s.cls(N=f"{AG}.Node", A=f"{AG}.Amount", E=f"{AG}.Edge", SD="carbon.tools.optimizer.ScaledVariable", T="carbon.tools.optimizer.CPCArbOptimizer.TradeInstruction", U3="carbon.tools.univ3calc.Univ3Calculator")
    s.put("n1", "N('AAA')")
    s.put("n2", "N('BBB')")
    s.put("e", "E(n1, a, n2, b, uid='u1')")
    for f in ("amount_in", "amount_out", "uid", "inverse"):
        if f.startswith("amount"):
            continue
        s.eq("fields", f"edge record: {f}", s.ev(f"e.{f}").value, f"e.asdict()['{f}']")
    s.eq("fields", "edge record, one field", "'u1'", "e.asdict(include=['uid'])['uid']")
    s.eq("fields", "edge record, one field: entries", "1", "len(e.asdict(include=['uid']))")
    s.eq("fields", "edge record, excluded field", "False", "'uid' in e.asdict(exclude=['uid'])")
    s.eq("fields", "edge record, excluded field: entries", "len(e.asdict()) - 1" if False else s.ev("len(e.asdict()) - 1").value, "len(e.asdict(exclude=['uid']))")
    s.eq("fields", "edge tuple, one field", "('u1',)", "e.astuple(include=['uid'])")
    s.eq("fields", "edge record, included and excluded", "0", "len(e.asdict(include=['uid'], exclude=['uid']))")
    s.eq("fields", "record given", "(1, 3)", "e.astuple(dct={'x': 1, 'y': 2, 'z': 3}, exclude=['y'])")
    s.put("v", "SD(a, 5, 'TKN', 18)") if False else None
    d = "{'token0': 'T0', 'token1': 'T1', 'sqrt_price_q96': a, 'tick': b, 'liquidity': c}"
    s.put("t", "T(cid='c1', tknin='AAA', amtin=a, tknout='BBB', amtout=-b)")
    for f, w in (("cid", "'c1'"), ("tknin", "'AAA'"), ("amtin", "a"), ("tknout", "'BBB'"), ("amtout", "-b")):
        s.eq("fields", f"trade instruction record: {f}", w, f"t.asdict()['{f}']")
        s.eq("fields", f"trade instruction records: {f}", w, f"T.to_dicts([t])[0]['{f}']")


def params(ck):
    s = Rt(ck, ("a", "b", "c", "d"))
    s.cls(P="carbon.tools.params.Params")
    s.put("p", "P(x=a, y=b)")
    s.put("q", "P(x=a, y=b).set_default(y=c, z=d)")
    s.put("r", "P.construct({'x': a, 'y': b}, defaults={'y': c, 'z': d})")
    s.put("t", "P.construct(r)")
    s.put("u", "P.construct(P(x=a, y=b), defaults={'y': c, 'z': d})")
    for nm in ("q", "r", "t", "u"):
        what = {"q": "defaults set", "r": "constructed", "t": "replica", "u": "replica with new defaults"}[nm]
        for src, w in ((f"{nm}.x", "a"), (f"{nm}.y", "b"), (f"{nm}['y']", "b"), (f"{nm}.z", "d"), (f"{nm}['z']", "d"), (f"{nm}['w']", "None"), (f"{nm}.get_default('y')", "c"), (f"{nm}.get_default('x')", "None"),
                       (f"len({nm}.params)", "2"), (f"len({nm}.defaults)", "2")):
            s.eq("params", f"{what}: {src}", w, src)
        s.rejects("params", f"{what}: missing attribute", f"{nm}.w")
        s.rejects("params", f"{what}: setting a value twice", f"{nm}.add(x=1)")
    s.eq("params", "no defaults: item", "None", "p['z']")
    s.rejects("params", "no defaults: attribute", "p.z")
    s.eq("params", "none", "0", "len(P.construct(None).params)")
    s.eq("params", "set twice", "c", "p.set('x', c).x")
    s.rejects("params", "update not allowed", "p.set('x', c, allowupdate=False)")
    s.eq("params", "add", "c", "p.add(w=c).w")
    s.eq("params", "add: self", "a", "p.add(w=c).x")
    s.eq("params", "defaults set twice", "(c, d)", "f = lambda p: (p.a1, p.a2)\nreturn f(P().set_default(a1=a, a2=d).set_default(a1=c))")
    s.eq("params", "replica with new defaults after reading", "d", "p3 = P.construct({'x': a})\np3.get_default('z')\nreturn P.construct(p3, defaults={'z': d}).z")
    s.rejects("params", "defaults on both", "P.construct(r, defaults={'z': a})")
    # a replica is its own
    s.eq("params", "replica: values are its own", "a", "t2 = P.construct(r)\nt2.set('x', d)\nreturn r.x")
    s.eq("params", "replica: defaults are its own", "d", "t2 = P.construct(r)\nt2.set_default(z=a)\nreturn r.z")
    s.eq("params", "dict given stays", "1", "dd = {'x': a}\np2 = P.construct(dd)\np2.add(w=1)\nreturn len(dd)")


def pairs(ck):
    s = Rt(ck, ("a", "b"))
    s.cls(PR="carbon.pair.CarbonPair", Q=f"{CPCM}.Pair", TC="carbon.sdk.sdktoken.TokenContainer", S="carbon.tools.simplepair.SimplePair")
    for src, w in (("PR('AAA/BBB').slashpair", "'AAA/BBB'"), ("PR(tknb='AAA', tknq='BBB').slashpair", "'AAA/BBB'"), ("PR(PR('AAA/BBB').slashpair).tknb", "'AAA'"), ("PR(PR('AAA/BBB').slashpair).tknq", "'BBB'"),
                   ("PR(slashpair='AAA/BBB').tknq", "'BBB'"), ("PR(PR('AAA/BBB')).slashpair", "'AAA/BBB'"), ("str(Q('AAA/BBB'))", "'AAA/BBB'"), ("Q(str(Q('AAA/BBB'))).tknb", "'AAA'"), ("Q(('AAA', 'BBB')).pair", "'AAA/BBB'"),
                   ("Q.unwrap(Q.wrap(['AAA/BBB', 'CCC/DDD']))", "('AAA/BBB', 'CCC/DDD')"), ("Q('AAA/BBB').pairr", "'BBB/AAA'"), ("S('AAA/BBB').pair", "'AAA/BBB'"), ("S(S('AAA/BBB')).tknq", "'BBB'")):
        s.eq("pairs", src, w, src)
    csv = "'AAA, 0xA1, 18\\n BBB, 0xB2, 6'"
    for i, (t, x, d) in enumerate((("AAA", "0xa1", 18), ("BBB", "0xb2", 6))):
        for fld, w in (("token", repr(t)), ("address", repr(x)), ("decimals", str(d)), ("name", repr(t))):
            s.eq("pairs", f"token list {t}: {fld}", w, f"TC.fromcsv({csv}).byticker('{t}').{fld}")
            s.eq("pairs", f"token list by address {x}: {fld}", w, f"TC.fromcsv({csv}).byaddr('{x}').{fld}")
    s.eq("pairs", "token list: with name", "'Name'", "TC.fromlist([['AAA', '0xA1', 18, 'Name']]).byticker('AAA').name")


def main():
    ck = Check("C17", "Serialised curves and orders round-trip field by field", RULES, floor=120, assumptions=[
        "numbers are real numbers", "a table made of records gives the same records back (values are not converted by the table library)"])
    for g in (curves, containers, orders, fields, params, pairs):
        try:
            g(ck)
        except Exception as e:
            ck.undecided("analysis", g.__name__, f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    run(main)
