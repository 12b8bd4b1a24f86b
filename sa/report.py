"""Verdict of one check: obligations, violations, what could not be decided, evidence file."""
import json
import os
import time

from .ir import VERIF

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obs = {}          # rule -> [checked, held, undecided]
        self.bads = []
        self.unsures = []
        self.samples = []
        self.fns = {}
        self.counts = {}
        self.rule = {}
        self.assume = []

    # ---- recording
    def say(self, rule, text):
        """Text of a rule, for the evidence."""
        self.rule[rule] = text

    def assumes(self, *texts):
        for t in texts:
            if t not in self.assume:
                self.assume.append(t)

    def an(self, a):
        """An analysed function."""
        d = self.fns.setdefault(a.where, {"states": 0, "returns": 0, "throws": 0})
        d["states"] += a.I.nstates
        d["returns"] += len(a.rets)
        d["throws"] += len(a.throws)
        d["functions_reached"] = max(d.get("functions_reached", 0), len(a.I.fn_seen))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, rule, where="", sample=None):
        o = self.obs.setdefault(rule, [0, 0, 0])
        o[0] += 1
        o[1] += 1
        if sample is not None and sum(1 for s in self.samples if s["rule"] == rule) < 2:
            self.samples.append({"rule": rule, "where": where, "case": cut(sample)})

    def bad(self, rule, where, what):
        self.obs.setdefault(rule, [0, 0, 0])[0] += 1
        for b in self.bads:
            if b["rule"] == rule and b["where"] == where:
                b["n"] += 1
                return
        self.bads.append({"rule": rule, "where": where, "what": cut(what, 1500), "n": 1})

    def unsure(self, rule, where, why):
        o = self.obs.setdefault(rule, [0, 0, 0])
        o[0] += 1
        o[2] += 1
        for b in self.unsures:
            if b["rule"] == rule and b["where"] == where:
                b["n"] += 1
                return
        self.unsures.append({"rule": rule, "where": where, "why": cut(why, 600), "n": 1})

    def test(self, rule, cond, where, what="", sample=None, notes=()):
        """Decide one obligation; a failing one on an imprecise state stays undecided."""
        if cond is None:
            self.unsure(rule, where, what)
        elif cond:
            self.ok(rule, where, sample)
        elif notes:
            self.unsure(rule, where, "%s (imprecise: %s)" % (what, sorted(notes)[:3]))
        else:
            self.bad(rule, where, what)
        return cond

    # ---- closing
    def known(self):
        try:
            d = json.load(open(KNOWN))
        except OSError:
            return []
        return [k for k in d.get("findings", []) if k.get("property") == self.prop]

    def finish(self, error=None):
        os.makedirs(EVID, exist_ok=True)
        listed, new = [], []
        for b in self.bads:
            k = [k for k in self.known() if k.get("rule") == b["rule"] and k.get("where") == b["where"]]
            (listed if k else new).append(b)
        n = {r: {"checked": o[0], "held": o[1], "undecided": o[2], "rule": self.rule.get(r, r)} for r, o in sorted(self.obs.items())}
        tot = [sum(o[i] for o in self.obs.values()) for i in range(3)]
        cov = {
            "explanation": "Static analysis of /repo's current source (path-sensitive dataflow over the resolved syntax tree, or "
                           "a rule over that tree, see each rule). %d obligations of %d rules were checked: %d held, %d undecided, "
                           "%d violated." % (tot[0], len(n), tot[1], tot[2], len(self.bads)),
            "obligations": tot[0], "held": tot[1], "undecided": tot[2],
            "rules": n,
            "functions": dict(list(self.fns.items())[:60]),
            "counts": self.counts,
            "samples": self.samples[:30],
        }
        if self.unsures:
            cov["undecided_cases"] = self.unsures[:20]
        if self.bads:
            cov["violations"] = self.bads[:20]
        if error:
            cov["error"] = cut(error, 2000)
        d = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
             "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        txt = json.dumps(d, indent=1, default=str)
        while len(txt) > 60000 and (cov["samples"] or len(cov["functions"]) > 5):
            cov["samples"] = cov["samples"][:len(cov["samples"]) // 2]
            cov["functions"] = dict(list(cov["functions"].items())[:max(5, len(cov["functions"]) // 2)])
            txt = json.dumps(d, indent=1, default=str)
        tmp = os.path.join(EVID, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            f.write(txt)
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))
        for b in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, b["where"], b["what"].splitlines()[0][:200]))
        if new:
            rp = os.path.join(VERIF, "build", "replay")
            os.makedirs(rp, exist_ok=True)
            rf = os.path.join(rp, self.prop + ".txt")
            with open(rf, "w") as f:
                for b in new:
                    f.write("%s\n  rule: %s\n  %s\n  %s\n\n" % (b["where"], b["rule"], self.rule.get(b["rule"], ""), b["what"]))
            for b in new[:10]:
                print("%s: %s: %s" % (b["where"], b["rule"], b["what"].splitlines()[0][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rf))
            return 1
        if error:
            print("ERROR property=%s: %s" % (self.prop, error))
            return 2
        print("OK property=%s: %d obligations, %d held, %d undecided, %.1fs" % (self.prop, tot[0], tot[1], tot[2], time.time() - self.t0))
        return 0


def cut(x, n=700):
    x = x if isinstance(x, str) else repr(x)
    return x if len(x) <= n else x[:n] + "..."
