#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
tech = {
 "C01": "property-based testing: generated intervals and expression programs against exact/113-bit reference arithmetic",
 "C02": "property-based testing: generated intervals against the exact range of the operation",
 "C03": "property-based testing: generated arguments against libquadmath, extrema and poles located exactly; f32 point sweep",
 "C04": "property-based testing: generated interval pairs against the set definition of each comparison and operation",
 "C05": "property-based testing plus f32 bit-pattern sweep against the IEEE definition",
}
try:
    import importlib.util
    spec = importlib.util.spec_from_file_location("tech", here + "/tools/tech.py")
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    tech.update(m.TECH)
except FileNotFoundError:
    pass
checks = []
na = []
for p in props:
    i = p["id"]
    if i in tech:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech[i],
            "level": "exploration",
            "level_note": "Generated-input search against an independent oracle; fixed, seeded work per tier; reports what was generated. No exhaustive claim beyond the sweeps named in the evidence. Trusts the oracle's wider arithmetic (f64 for f32, 113-bit for f64) and the stated tolerance.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: everything is reached through the public API. /repo carries only fix: commits, listed in KNOWN_FINDINGS.txt."}
open(here + "/MANIFEST.json", "w").write(json.dumps(out, indent=1) + "\n")
