"""Verdicts, evidence and known findings."""
import json, os, sys, time
from vlib import VERIF


class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.cov = {}
        self.assumptions = []
        self.findings = []
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith("replay-%s-" % prop):
                os.unlink(os.path.join(d, f))

    def violation(self, text, data):
        """records one violation; the replay file says how to see it again"""
        n = len(self.violations) + 1
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=text, **data), f, indent=1, default=str)
        self.violations.append((text, path))
        print("--- %s" % text)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0


def known(prop):
    """entries of the known-findings file: KNOWN lines of this property, (id, text)"""
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("known: "):
                kv = l[7:].split(" ", 2)
                if kv[0] == "property=" + prop:
                    out.append((kv[1].split("=", 1)[1], kv[2]))
    return out
