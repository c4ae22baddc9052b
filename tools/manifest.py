#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TECH = json.load(open(f"{here}/technique.json"))
checks, na = [], []
for p in props:
    t = TECH.get(p["id"])
    if not t:
        na.append({"property": p["id"], "reason": "monitor not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} --quick",
        "thorough_cmd": f"bash check.sh {p['id']} --thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t["technique"],
        "level": "exploration",
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none: every monitor observes through public interfaces", "enable": "not needed", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One Rust binary (harness/, path dependencies on /repo) holds all monitors; check.sh rebuilds it from /repo's working tree and runs one property. Replay a violation with: bash check.sh <id> --replay <path>.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
