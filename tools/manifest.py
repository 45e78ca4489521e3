#!/usr/bin/env python3
"""writes MANIFEST.json from lib/registry.py"""
import json, subprocess, sys
sys.path.insert(0, "/verif/lib")
import registry
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
m = {
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "hooks": {"guard": "cfg(cambrian_verif)", "enable": "RUSTFLAGS=\"--cfg cambrian_verif\"", "source_commits": hooks},
    "checks": [],
    "not_applicable": [],
}
for i in ids:
    if i in registry.CHECKS:
        t, note = registry.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": registry.CHECKS[i][0],
                            "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
