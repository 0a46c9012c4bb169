#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: tool error."""
import json, os, sys, time, traceback, importlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import ROOT, ToolError, work

# property -> (module, function, parameters)
CHECKS = {
    "P01": ("c_xsd", "structural", dict(family="card", view="card")),
    "P02": ("c_xsd", "structural", dict(family="member", view="member")),
    "P03": ("c_xsd", "structural", dict(family="inherit", view="fields")),
    "P04": ("c_xsd", "structural", dict(family="simple", view="simple")),
    "P05": ("c_xsd", "structural", dict(family="type", view="type")),
    "P06": ("c_xsd", "structural", dict(family="name", view="ident")),
    "P07": ("c_xsd", "inert", dict()),
    "P08": ("c_session", "p08", dict()),
    "P09": ("c_rt", "p09", dict()),
    "P10": ("c_facets", "p10", dict()),
    "P11": ("c_lex", "lexical", dict()),
    "P12": ("c_lex", "lexical", dict()),
    "P13": ("c_lex", "lexical", dict()),
    "P14": ("c_lex", "lexical", dict()),
    "P24": ("c_lex", "order", dict()),
    "P16": ("c_wsdl", "p16", dict()),
    "P17": ("c_cli", "p17", dict()),
    "P18": ("c_xsd", "structural", dict(family="nest", view="nest")),
    "P19": ("c_xsd", "structural", dict(family="choice", view="choice")),
    "P20": ("c_xml", "p20", dict()),
    "P21": ("c_xsd", "notes", dict()),
    "P23": ("c_wsdl", "p23", dict()),
    "P22": ("c_xsd", "custom", dict()),
}


class Run:
    """One run of a check: what was covered, and what was found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.level = "model_checking"
        self.assumptions = []
        self.dir = work(prop)
        for f in os.listdir(self.dir):
            if f.startswith("replay"):
                os.remove(os.path.join(self.dir, f))

    def log(self, *a):
        print("[%s %.0fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, text):
        """adds up what TLC reports about a run"""
        import re
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            self.cov["transitions"] += int(m.group(1))
            self.cov["states"] += int(m.group(2))
        m = re.search(r"Progress: (\d+) states checked, (\d+) traces generated", text)
        if m:
            self.cov["transitions"] += int(m.group(1))
            self.cov["states"] += int(m.group(1))
            self.cov["simulated_behaviours"] = self.cov.get("simulated_behaviours", 0) + int(m.group(2))

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def violation(self, rec):
        n = len(self.violations)
        path = os.path.join(self.dir, "replay-%d.json" % n)
        if n < 20:
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
        self.violations.append(path)
        if n < 5:
            self.log("broken:", json.dumps(rec)[:1200])

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]))
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod, fn, kw = CHECKS[prop]
    try:
        run = Run(prop, tier, seed)
        lib.build()
        f = getattr(importlib.import_module(mod), fn)
        replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
        if replay:
            kw = dict(kw, replay=json.load(open(replay)))
        f(run, **kw)
        importlib.import_module("findings").probe(run)
        return run.finish()
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
