"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "explicit-state model checking of the real code: exhaustive enumeration of bounded executions against a reference model",
                       "level": "model_checking",
                       "level_note": "Every execution in the stated bounds is run on the code compiled from /repo with AddressSanitizer and compared with an independent reference model. Enumerated: " + p["rule"] + ". Trusts the reference model, the compiler and the stated bounds; says nothing beyond them."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's sources unmodified and use its public callbacks, with malloc/PCSC calls replaced at link time", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Known and fixed findings: KNOWN_FINDINGS.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
