"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
from plan import PLAN
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PLAN:
        q = PLAN[p]
        checks.append({
            "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "TLA+ specification (%s) checked by TLC; conformance of recorded executions judged by TLC (%s)"
                         % (", ".join(q["models"]), q["trace"]),
            "level": "model_checking",
            "level_note": q.get("note") or "TLC checks the invariants of the specification exhaustively within the constants of its "
                          "configuration; the real code is bound to it by validating recorded executions (enumerated cases replayed and "
                          "seeded generated ones), so for the code the assurance is that of the executions explored. Trusted: the "
                          "recorder, TLC, the native (Java) arithmetic behind Reals.tla."})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md. No hooks in /repo: everything is observed at the public functions."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
