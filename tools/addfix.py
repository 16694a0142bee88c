"""addfix.py PROP RULE CONSTRUCT 'what failed' [commit] [status]  - record a fixed defect (or, status=open, a known finding)"""
import json, subprocess, sys
prop, rule, cons, what = sys.argv[1:5]
status = sys.argv[6] if len(sys.argv) > 6 else "fixed"
c = sys.argv[5] if len(sys.argv) > 5 and sys.argv[5] else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
d = json.load(open("/verif/known_findings.json"))
note = f"fixed: property={prop} {c} {what}" if status == "fixed" else what
d["findings"].append({"property": prop, "status": status, "rule": rule, "construct": cons, "note": note})
with open("/verif/known_findings.json", "w") as fh:
    fh.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
