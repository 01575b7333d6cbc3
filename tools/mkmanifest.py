#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif")
from plans import PLANS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        pl = PLANS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": pl.get("technique", "TLA+ specification checked with TLC; recorded executions of the real code judged by the specification (trace validation)"),
                       "level": pl["level"], "level_note": pl.get("level_note", "Exhaustive in the stated small scope of the specification, plus every recorded execution of the real code judged by TLC against the specification; inputs outside the generated set are not covered. Trusts TLC, the harness's recording and serde_json.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public API only", "source_commits": []},
     "notes": "TLA+/TLC specifications in spec/, Rust harness in harness/ (path dependency on /repo), driver check.py. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
