#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or [], claimed=claimed, na=na))

TECH_DOC = "explicit exhaustive enumeration of a bounded document/skin/width space, every case executed on the real code and checked against a relational rendering model"
TECH_BFS = "explicit-state breadth-first search over all operation sequences; every transition is executed on the real code and compared with a reference model"
NOTE_DOC = ("Exhaustive within the stated bounds (see evidence families); beyond them only the small-scope argument. "
            "Trusts minimad's parsing, unicode-width and the terminal interpreter of mc/src/emu.rs.")
exec(open(os.path.join(os.path.dirname(__file__), "props_list.py")).read())

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        import re
        n = len([x for x in re.split(r"(?<=[.!?])\s+(?=[A-Z])", p["statement"].strip()) if x])
        assert n <= 3, (p["id"], n)
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P if p["claimed"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claimed"]],
       "notes": "No hook in /repo: the checks use the public API; crossterm and crossbeam-channel are replaced by [patch.crates-io] in the harness workspace of the concurrent checks only."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
