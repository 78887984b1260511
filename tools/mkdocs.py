#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the fixed entries of KNOWN_FINDINGS.json. Run in /verif after changing this file."""
import json, os
from props import PROPS, FIXED, FINDINGS, NOT_APPLICABLE
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
TECH = "property-based testing: proptest-generated calls, "
json.dump({
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
        "technique": TECH + p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": NOT_APPLICABLE,
    "notes": "check.sh rebuilds the crate from /repo's working tree (as C-ABI shared libraries, one per feature set) and the driver into the ignored folder .build. Replay a counterexample with: bash check.sh --replay replays/<id>/<file>.json",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
out = [dict(kind="fixed", property=p, commit=c, text=f"fixed: property={p} {c} {t}") for c, p, t in FIXED]
out += [dict(kind="finding", **f) for f in FINDINGS]
json.dump(out, open("KNOWN_FINDINGS.json", "w"), indent=1)
open("KNOWN_FINDINGS.json", "a").write("\n")
