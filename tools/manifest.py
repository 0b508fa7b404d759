#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of built checks."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
# property -> (binary, technique, level note)
CHECKS = {}
def c(i, b, t, n): CHECKS[i] = (b, t, n)
exec(open(here + "/tools/checks.py").read())
HOOK_COMMITS = [l.strip() for l in open(here + "/tools/hook_commits.txt")] if os.path.exists(here + "/tools/hook_commits.txt") else []
NA = dict(NOT_APPLICABLE)
out = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "cfg(halo_verif)", "enable": "harness/.cargo/config.toml passes rustflags --cfg halo_verif to every build of the harness, which builds /repo as a path dependency", "source_commits": HOOK_COMMITS},
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        b, t, n = CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash run.sh {i} {b}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i} {b}",
          "technique": t, "level": "exploration", "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(out, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
