"""Verdict, evidence, known findings."""
import json, os, sys, time, traceback
from .env import VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.json")


def known():
    try:
        with open(KNOWN) as fh:
            return json.load(fh)["findings"]
    except FileNotFoundError:
        return []


class Check:
    def __init__(self, prop, level="model_checking", assumptions=()):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = list(assumptions)
        self.viol, self.knownhits = [], {}
        self._known = {k["key"]: k for k in known() if k["property"] == prop and k.get("status") == "known"}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def fail(self, key, what, data=None):
        """key identifies the failing input, call site or history."""
        if key in self._known:
            self.knownhits[key] = self._known[key]
            return
        self.viol.append({"key": key, "what": what, "data": data})

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        for k, f in self.knownhits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        print("%s %s seed=%d: %s" % (self.prop, self.tier, self.seed,
              {k: v for k, v in self.cov.items() if isinstance(v, int)}), "%.1fs" % (time.time() - self.t0))
        if self.viol:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as fh:
                json.dump(self.viol[:200], fh, indent=1, default=str)
                fh.write("\n")
            for v in self.viol[:5]:
                print(("  violation: %s -- %s" % (v["key"], v["what"]))[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0
