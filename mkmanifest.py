#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props_meta.py and properties.jsonl."""
import json, os, subprocess
from props_meta import META
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    m = META.get(p["id"])
    if not m:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": m.get("technique", "property-based testing: generated cases against a reference oracle, with shrinking"),
        "level": "exploration",
        "level_note": "Exploration, not proof: %s. Oracle: %s. Assumes: %s." % (m["gen"], m["oracle"], "; ".join(m["assumes"])),
    })
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("Hook")]
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "cfg(libmcaptcha_verif)",
              "enable": "harness/.cargo/config.toml passes --cfg libmcaptcha_verif to rustc",
              "source_commits": hooks},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in META],
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
