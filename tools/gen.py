#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py, the checks' docstrings and design_intro.md."""
import json, os, sys, importlib, glob, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools"]
import props
lines, checks, nas, design = [], [], [], []
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for p in sorted(props.P, key=lambda p: p["id"]):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"): a["state"] = p["state"]
    if p.get("observe"): a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                  "why_tests_cant": p["why"], "anchors": a})
    design.append(f"### {p['id']} {p['title']}\n")
    if "na" in p:
        nas.append({"property": p["id"], "reason": p["na"]})
        design.append(f"Not applicable: {p['na']}\n")
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                   "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    doc = ast.get_docstring(ast.parse(open(f"{V}/checks/{p['id']}.py").read())) or ""
    design.append(f"*Deciding method:* {p['tech']}.\n\n{doc}\n\n*Assurance and limits:* {p['note']}. *Why tests do not reach it:* {p['why']}.\n")
    if p.get("design"): design.append(p["design"] + "\n")
    for s, d in seeds.get(p["id"], []):
        design.append(f"- planted `{s}`: {d['what_it_breaks']} — {caught.get(s, 'not yet run')}")
    if seeds.get(p["id"]): design.append("")
with open(V + "/properties.jsonl", "w") as f:
    for l in lines: f.write(json.dumps(l) + "\n")
man = {"version": 1, "setup_cmd": "python3 engine/facts.py", "checks": checks, "not_applicable": nas,
       "notes": "All checks parse /repo's working tree with a libTooling fact extractor built by setup_cmd (or on demand) and decide from the resolved syntax; no hooks in /repo."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
intro = open(V + "/tools/design_intro.md").read()
open(V + "/DESIGN.md", "w").write(intro + "\n## Properties\n\n" + "\n".join(design) + "\n")
try:
    import jsonschema
    S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    jsonschema.validate(man, S("MANIFEST"))
    for l in lines: jsonschema.validate(l, S("PROPERTIES"))
    print("schemas ok", len(lines), len(checks), len(nas))
except ImportError:
    print("no jsonschema")
