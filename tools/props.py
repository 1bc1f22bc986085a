"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "vanillaplusjs/build/"
PROPS = []
NA = {}

def P(id, title, statement, over, qtext, why, files, mech, claim=None, level="proof", technique=None, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, level=level, technique=technique, note=note))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["claim"]:
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p['id']}", "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or "contract-based deductive verification: VCs generated from /repo's Python source, discharged by z3/cvc5; bounded run-time contract replays failures", "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet in this framework")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na, "notes": "VC generator in vc/, contracts (sidecar, keyed by function) in contracts/, bounded run-time contracts in rt/. No hooks in /repo."}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
