#!/usr/bin/env python3
"""Source of properties.jsonl and of MANIFEST.json's check list (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))

exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "observe_at": list(x["observe"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks = [x for x in P if x["technique"] and not x["na"]]
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": x["id"],
        "quick_cmd": f"VERIF_TIER=quick ./run.sh {x['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {x['id']}",
        "technique": x["technique"], "level": "model_checking", "level_note": x["note"],
    } for x in checks],
    "not_applicable": [{"property": x["id"], "reason": x["na"] or "check not built yet"} for x in P if x not in checks],
    "notes": "Every check is a bounded exhaustive exploration of the real code against an executable reference model; see DESIGN.md. No hooks in /repo are needed.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
