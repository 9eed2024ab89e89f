#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(here, "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIMED.get(i)
    if c is None:
        na.append({"property": i, "reason": "not claimed yet: the check is under construction"})
    elif "not_applicable" in c:
        na.append({"property": i, "reason": c["not_applicable"]})
    else:
        checks.append({
            "property": i,
            "quick_cmd": f"/verif/check.sh {c['crate']} {i} quick",
            "thorough_cmd": f"/verif/check.sh {c['crate']} {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "/verif/setup.sh",
    "hooks": {"guard": "co_snarks_verif", "enable": "RUSTFLAGS --cfg co_snarks_verif (set in /verif/harness/.cargo/config.toml)", "source_commits": json.load(open(os.path.join(here, "hook_commits.json")))},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are property-based tests driven by one choice-sequence engine (harness/engine); VERIF_SEED pins every random choice of the generators.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
