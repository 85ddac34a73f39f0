#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, config

props = [json.loads(l) for l in open(build.VERIF + "/properties.jsonl")]
variants = sorted({(v, p) for p, c in config.PROPERTIES.items() for v, _ in c["variants"]})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection: " + config.PROPERTIES[p["id"]]["technique"],
        "level": "exploration",
        "level_note": config.PROPERTIES[p["id"]]["note"],
    } for p in props if p["id"] in config.PROPERTIES],
    "not_applicable": [{"property": p["id"], "reason": config.NOT_APPLICABLE.get(p["id"], "no check yet")} for p in props if p["id"] not in config.PROPERTIES],
    "notes": "No hooks in /repo: every seam is reached by interposition, by the library's own interfaces, or by compiler-inserted callbacks. See DESIGN.md.",
}
with open(build.VERIF + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
