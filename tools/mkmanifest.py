#!/usr/bin/env python3
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in ids:
    if p in PROPS and PROPS[p]["units"]:
        P = PROPS[p]
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "contract-based deductive verification (Verus) of functions extracted from /repo; harness replays",
            "level": "proof", "level_note": "every obligation of unit(s) " + ", ".join(P["units"]) + " discharged by Verus/z3 on the text cut from /repo. Trusted/assumed: " + "; ".join(P.get("assume", []) or ["contracts on std"]) + ". Outside the verifier, bounded: " + P.get("bounded", "")})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no contract unit yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg forust_verif", "enable": "RUSTFLAGS='--cfg forust_verif' (set by tools/check.py when it builds harness/)", "source_commits": ["3b452c6"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
