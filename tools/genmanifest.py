"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
AI = "abstract interpretation of the LLVM IR, symbolic geometry, loop invariants, per-path obligations"
NOTE = ("Every path of the analysed entry points, for all supported geometries, states and NAND outcomes, is covered by the "
        "abstraction; a rule instance that cannot be derived is reported as a violation only when random interpretation of the "
        "domain terms finds a point satisfying the path and breaking the goal, and is logged as undecided otherwise (none on the "
        "current tree unless the evidence says so). Trusts clang's front end, the engine in /verif/engine, the driver model and the rule tables.")
NOTE2 = ("An equality that cannot be derived counts as a violation only when the two normal forms differ and contain no value the "
         "analysis does not track; otherwise it is logged as undecided (none on the current tree unless the evidence says so). "
         "Trusts clang's front end, the engine in /verif/engine and the definitions written there.")
import levels
na = levels.NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py engine/*.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in levels.CLAIM:
        t = levels.CLAIM[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t[0] or AI, "level": "other",
                            "level_note": (t[1].strip() + " " + NOTE2) if t[1] else NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
m["notes"] = "check.py forks one analysis process per entry point and case; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
