"""Collecting violations, matching known findings, writing evidence and replay files."""
import hashlib
import json
import os
import sys
import time

from . import boot

KNOWN = os.path.join(boot.VERIF, "known_findings.txt")
EVID = os.path.join(boot.VERIF, "evidence")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line.startswith("finding: "):
                    rec = json.loads(line[len("finding: "):])
                    if rec["property"] == prop:
                        out[rec["key"]] = rec
    return out


class Ctx:
    MAX_KEEP = 200

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.violations = {}
        self.n_viol = 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "exhaustive": True}
        self.assumptions = []
        self.parts = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def violation(self, key, what, replay=None):
        """key identifies the specific failing input/history (used for known findings)."""
        self.n_viol += 1
        if key not in self.violations and len(self.violations) < self.MAX_KEEP:
            self.violations[key] = {"what": what, "replay": replay}

    def add(self, part, states=0, transitions=0, traces=0, **extra):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        p = self.parts.setdefault(part, {"states": 0, "transitions": 0, "traces": 0})
        p["states"] += states
        p["transitions"] += transitions
        p["traces"] += traces
        for k, v in extra.items():
            p[k] = v

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = known_findings(self.prop)
        new = {k: v for k, v in self.violations.items() if k not in known}
        seen_known = [k for k in self.violations if k in known]
        self.cov["parts"] = self.parts
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new), "known_findings_seen": len(seen_known),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        for k in seen_known:
            print(f"KNOWN-FINDING: property={self.prop} {known[k]['what']}")
        print(f"{self.prop} {self.tier}: states={self.cov['states']} transitions={self.cov['transitions']} "
              f"traces={self.cov['traces_validated_against_impl']} wall={ev['wall_s']}s violations={len(new)}")
        for name, p in self.parts.items():
            print(f"  - {name}: {p}")
        if new:
            for k, v in list(new.items())[:5]:
                h = hashlib.sha1(k.encode()).hexdigest()[:10]
                path = os.path.join(EVID, f"{self.prop}.replay.{h}.json")
                with open(path, "w") as fh:
                    json.dump({"property": self.prop, "key": k, "what": v["what"], "replay": v["replay"]},
                              fh, indent=1, default=str)
                print(f"  violated: {k}: {v['what']}")
                print(f"VIOLATION property={self.prop} replay={path}")
            for k, v in list(new.items())[5:40]:
                print(f"  also: {k}: {str(v['what'])[:300]}")
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0
