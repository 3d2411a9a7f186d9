"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

U = "src/tfc/utils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="other", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
M = {
    "version": 1,
    "setup_cmd": "python3-vt -c \"import sympy, mpmath\" && /usr/bin/clang-18 --version >/dev/null",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check parses /repo/src/tfc afresh (Python ast; clang JSON AST for BF.cc and BF_Py.cc) and runs nothing of the repository.",
}
for p in P:
    if p["na"]:
        M["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    M["checks"].append({"property": p["id"], "quick_cmd": "python3-vt /verif/sa/run.py %s quick" % p["id"], "thorough_cmd": "python3-vt /verif/sa/run.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
