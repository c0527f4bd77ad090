#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L2, HULL, IMP2 = "src/linestring_2d.rs", "src/linestring_2d/convex_hull.rs", "src/linestring_2d/impls.rs"
SW, ISW, SIM = "src/linestring_2d/intersection.rs", "src/linestring_2d/indexed_intersection.rs", "src/linestring_2d/simplify.rs"
L3, IMP3, SIM3, SHAPE, LIB = "src/linestring_3d.rs", "src/linestring_3d/impls.rs", "src/linestring_3d/simplify.rs", "src/shape.rs", "src/lib.rs"
SYM = "symbolic execution of the real generic code, SMT solver (z3, bit-vectors) decides every path and obligation"
GRID = "coordinates on small integer grids (bounds per harness in the evidence)"
P = []
def prop(id, title, statement, text, why, mech, over=("inputs",), note="", tech=SYM, state=None, level="model_checking"):
    files = []
    for _, f, _ in mech:
        if f not in files: files.append(f)
    a = {"files": files, "mechanism": [{"name": n, "where": f"{f}: {w}"} for n, f, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a}
    assert len(title) <= 80, (id, len(title))
    P.append((p, note, tech, level))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "na.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
    for n in NA:
        if "prop" in n: f.write(json.dumps(n["prop"]) + "\n")
m = {"version": 1, "setup_cmd": "bash check.sh setup",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": tech, "level": level, "level_note": note} for p, note, tech, level in P],
     "not_applicable": [({"property": n["prop"]["id"], "reason": n["reason"]} if "prop" in n else {"property": n["id"], "reason": n["reason"]}) for n in NA],
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the crate's public API is generic over the scalar type; the checks instantiate it with a symbolic scalar and patch its ahash and rayon dependencies (cargo [patch] in /verif/engine) with recording models", "source_commits": []}}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
