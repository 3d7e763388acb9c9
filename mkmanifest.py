#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json
checks = json.load(open("checks.json"))
na = json.load(open("not_applicable.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks: the verifier reads /repo's sources, the harness is injected with go test -overlay", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "gov/ is the verifier, contracts/ the contracts, harness/ the in-package bounded checks. KNOWN_FINDINGS.md lists the defects found and fixed.",
}
for p in props:
    if p in checks:
        c = checks[p]
        e = {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}",
             "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
        m["checks"].append(e)
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
