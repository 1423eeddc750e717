# Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note="", claimed=True, reason=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None),
        _technique=technique, _note=note, _claimed=claimed, _reason=reason))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
checks = json.load(open(os.path.join(V, "checks", "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
    notes="Property-based testing with an own choice-sequence engine (engine/): every case is generated from a seed, judged against a reference model or relation, and shrunk to a replay file. `python3 run.py ID --replay FILE` re-runs a replay file. No hooks are needed in /repo.")
for p in P:
    if p["_claimed"] and p["id"] in checks:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"], level=checks[p["id"]].get("level", "exploration"), level_note=p["_note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_reason"] or "no check yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
