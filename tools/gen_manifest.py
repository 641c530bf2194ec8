"""Writes MANIFEST.json from the plan of the checks."""
import json, sys
sys.path.insert(0, "/verif/tools")
from plan import PLAN
NOTE = ("TLC explores the specification exhaustively over finite domains (families %s) with the property as invariants%s; every case of these "
        "domains and random cases beyond them (families %s) are executed against /repo through its public interface, and TLC replays each "
        "recorded execution through the specification and judges it. Holds for everything explored; trusts Go, the JVM, TLC and the driver's recording.")
checks = []
for p in sorted(PLAN):
    plan = PLAN[p]
    inv = sorted({i for v in plan["model"].values() for i in v})
    checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="TLA+ specification model checked with TLC, bound to the code by executing its behaviours and by trace validation",
        level="model_checking",
        level_note=NOTE % (", ".join(plan["model"]), " (" + ", ".join(inv) + ")" if inv else "", ", ".join(plan["random"]))))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the driver uses the public interface only. Known findings and repairs: known_findings.txt."),
    open("/verif/MANIFEST.json", "w"), indent=1)
