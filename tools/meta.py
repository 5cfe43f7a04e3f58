#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
Claimed = the harness implements it (`vp list`)."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
claimed = subprocess.check_output([ROOT + "/harness/target/release/vp", "list"], text=True).split()
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": ", ".join(p["files"])}]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --release --offline --locked",
    "checks": [], "not_applicable": [],
    "notes": "Every check is ./check.sh ID TIER: it builds the harness crate (path dependency on /repo) and runs generated cases in worker processes, sharded over the cores; the case set is a pure function of VERIF_SEED and the tier. No hooks in /repo: only the public API is used.",
}
for p in PROPS:
    if p["id"] in claimed:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p.get("na", "check under construction")})
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not claimed")
