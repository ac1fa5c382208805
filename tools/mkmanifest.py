#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import table
PURE = {
    "N01": "ray crossings are a pure function of the ray and the mesh: no I/O, clock, allocation-dependent branch, thread or fault for a simulator to vary",
    "N02": "areas, centroids and chord lengths are pure functions of the coordinates; nothing for a schedule or fault to change",
    "N03": "sorting and validation are pure in-memory transformations of one mesh; nothing for a schedule or fault to change",
    "N04": "modular ray parameters are a pure function of angle, spacing and size",
    "N05": "collapsing and homogenisation are pure arithmetic on in-memory cross sections",
    "N06": "overlap ownership is decided by a deterministic geometry kernel from in-memory shapes; no fault or interleaving enters the decision",
    "N07": "pin mesh construction is a pure function of radii, rings and azimuthal divisions",
    "N08": "linear algebra, roots and statistics are pure numerical functions of their input",
}
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
for p in props:
    if p in table.T:
        t = table.T[p]
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t["technique"], "level": "exploration",
                       "level_note": t["note"]})
na = [{"property": p, "reason": PURE.get(p, "check not built yet")} for p in props if p not in table.T]
m = {"version": 1, "setup_cmd": "python3 tools/build.py all",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator provides the C library's file, stream, clock and memory entry points "
              "to the unmodified sources."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
