#!/usr/bin/env python3
"""Emits /verif/properties.jsonl and /verif/MANIFEST.json from one table, so the two stay in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level, technique, note, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level=level, technique=technique, note=note, state=state or [], hook=hook))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
built = set(BUILT) if BUILT is not None else {p["id"] for p in P}
m = dict(version=1, setup_cmd="bash /verif/run.sh setup",
         checks=[dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash /verif/run.sh {p['id']}",
                      thorough_cmd=f"VERIF_TIER=thorough bash /verif/run.sh {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"],
                      level_note=p["note"]) for p in P if p["id"] in built],
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in built],
         notes="No hooks in /repo: all instrumentation is generated at check time through 'go build -overlay'. See DESIGN.md.")
if not m["not_applicable"]:
    m["not_applicable"] = []
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
