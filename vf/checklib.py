"""
Common frame of the checks: obligations, findings, evidence.

An obligation is one thing a rule decided about one construct of the source: it holds, it is
broken, or the analysis could not decide it (reported and counted, never an alarm).
"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


class Check:
    def __init__(self, pid, title, rules, floor=1, assumptions=(), tier=None):
        self.pid, self.title, self.rules = pid, title, rules
        self.floor = floor
        self.assumptions = list(assumptions)
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.held, self.broken, self.und = [], [], []
        self.facts = {}
        self.functions = set()
        self.callsites = 0
        self.interps = 0
        self.samples = []
        Check.last = self

    last = None

    # ------------------------------------------------------------------ recording
    def ok(self, rule, construct, note=""):
        self.held.append((rule, construct, note))

    def bad(self, rule, construct, detail, where=""):
        for b in self.broken:
            if b[0] == rule and b[1] == construct:
                return
        self.broken.append((rule, construct, detail, where))

    def undecided(self, rule, construct, why):
        e = sys.exc_info()[1]
        if type(e).__name__ == "Dead":      # not a limit of the analysis: every path of the code it follows raises
            return self.bad(rule if rule in self.rules else next(iter(self.rules)), construct, f"always fails: {type(e).last}")
        self.und.append((rule, construct, why))

    def decide(self, cond, rule, construct, detail="", where="", note=""):
        """cond True / False / None (undecided)"""
        if cond is True:
            self.ok(rule, construct, note)
        elif cond is False:
            self.bad(rule, construct, detail, where)
        else:
            self.undecided(rule, construct, detail)

    def count(self, name, n=1):
        self.facts[name] = self.facts.get(name, 0) + n

    def absorb(self, interp):
        """account for what an analysis run visited"""
        self.functions |= interp.visited
        self.callsites += interp.callsites
        self.interps += 1

    # ------------------------------------------------------------------ finish
    def finish(self):
        if hasattr(signal, "setitimer"):
            signal.setitimer(signal.ITIMER_REAL, 0)
        known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for e in json.load(fh)["findings"]:
                    if e.get("status") == "open":
                        known[(e["property"], e["rule"], e["construct"])] = e
        new, listed = [], []
        for b in self.broken:
            e = known.get((self.pid, b[0], b[1]))
            (listed if e is not None else new).append(b)
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        rep = os.path.join(out, f"{self.pid}.txt")
        print(f"{self.pid} {self.title}")
        print(f"  analysed: {len(self.functions)} functions, {self.callsites} inlined call sites, {self.interps} entry points; "
              f"obligations: {len(self.held)} hold, {len(self.broken)} broken, {len(self.und)} undecided")
        per = {}
        for r, c, *_ in self.held:
            per.setdefault(r, [0, 0, 0])[0] += 1
        for r, c, *_ in self.broken:
            per.setdefault(r, [0, 0, 0])[1] += 1
        for r, c, *_ in self.und:
            per.setdefault(r, [0, 0, 0])[2] += 1
        for r in sorted(per):
            print(f"  rule {r}: {per[r][0]} hold, {per[r][1]} broken, {per[r][2]} undecided - {self.rules.get(r, '')}")
        for r, c, why in self.und[:60]:
            print(f"  undecided [{r}] {c}: {why[:300]}")
        lines = []
        for r, c, d, w in new:
            lines.append(f"rule: {r} - {self.rules.get(r, '')}\nconstruct: {c}\nwhere: {w}\ndetail: {d}\n")
        with open(rep, "w") as fh:
            fh.write("\n".join(lines) or "no violation\n")
        for r, c, d, w in listed:
            print(f"KNOWN-FINDING: property={self.pid} [{r}] {c}: {d[:300]} ({w})")
        status = 0
        for r, c, d, w in new[:25]:
            print(f"  broken [{r}] {c}: {d[:500]} ({w})")
        if len(new) > 25:
            print(f"  ... {len(new) - 25} more in {rep}")
        if new:
            print(f"VIOLATION property={self.pid} replay={rep}")
            status = 1
        decided = len(self.held) + len(self.broken)
        if decided < self.floor and status == 0:
            print(f"ERROR: only {decided} obligations decided, at least {self.floor} expected: the anchors of this check were not found")
            status = 2
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "static analysis of the current source tree; rules: " + "; ".join(f"{k}: {v}" for k, v in self.rules.items()),
                "functions_analysed": len(self.functions), "call_sites_inlined": self.callsites, "entry_points": self.interps,
                "obligations": len(self.held) + len(self.broken) + len(self.und),
                "discharged": len(self.held), "undecided": len(self.und),
                "per_rule": {r: {"hold": v[0], "broken": v[1], "undecided": v[2]} for r, v in sorted(per.items())},
                "undecided_list": [f"[{r}] {c}: {w[:160]}" for r, c, w in self.und[:80]],
                "samples": [f"[{r}] {c} {n}"[:300] for r, c, n in (self.held[:6] + self.held[-6:] if len(self.held) > 12 else self.held)],
                "functions": sorted(self.functions)[:400],
                "known_findings": [f"[{r}] {c}" for r, c, d, w in listed],
                **self.facts,
            },
            "assumptions": self.assumptions,
            "violations": len(new),
            "wall_s": round(time.time() - self.t0, 3),
        }
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"  {self.pid}: {'BROKEN' if new else 'held on everything decided'} in {ev['wall_s']}s")
        sys.stdout.flush()
        return status


def run(main):
    """run a check's main(); an internal failure leaves the remaining obligations undecided, it is never a
    verdict: what was decided before is reported, and too few decided obligations are an error of the check"""
    def late(*_):
        raise TimeoutError("the analysis took too long")
    if hasattr(signal, "setitimer"):        # whatever has not been decided by then stays undecided
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 600, 5)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc(limit=-6)
        ck = Check.last
        if ck is None or not isinstance(e, Exception):
            print("ERROR: the check itself failed")
            sys.exit(3)
        ck.undecided("analysis", "remaining obligations", f"the analysis stopped: {type(e).__name__}: {e}"[:300])
        sys.exit(ck.finish())
    sys.exit(rc)
