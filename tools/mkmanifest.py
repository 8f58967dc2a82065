#!/usr/bin/env python3
"""writes MANIFEST.json: claimed = properties with a check function; the rest are listed as not applicable"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import run
out = {}


def main():
    import report
    mods = report.modules()
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    import notes
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in mods and i not in notes.NA:
            checks.append({
                "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                "technique": "static analysis: " + notes.TECH.get(i, notes.DEFAULT_TECH),
                "level": "other", "level_note": notes.NOTE.get(i, notes.DEFAULT_NOTE)})
        else:
            na.append({"property": i, "reason": notes.NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 engine/dump.py", "checks": checks, "not_applicable": na,
         "notes": "All checks read the compiler's MIR of /repo's current tree; see DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed;", len(na), "not applicable")


run.main(main)
