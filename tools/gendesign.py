#!/usr/bin/env python3
"""Writes DESIGN.md (run: python3 tools/gendesign.py)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(root + "/" + p).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
known = json.loads(rd("known_findings.json"))["findings"]
seeds = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m)); d["id"] = m.split("/")[-2]; seeds.append(d)
o = [rd("doc/head.md")]
o.append("\n## The properties one by one\n")
for p in props:
    i = p["id"]
    if i not in man:
        o.append(f"### {i} {p['title']}\n\nNot claimed yet.\n"); continue
    src = rd(f"harness/checks/{i.lower()}.go")
    def fld(n):
        m = re.search(n + r':\s*((?:\[\]string\{[^\n]*\})|"(?:[^"\\]|\\.)*")', src)
        return m.group(1) if m else ""
    rule = json.loads(fld("Rule"))
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', fld("Assume")) if fld("Assume") else []
    q = re.search(r"Quick:\s*(\d+), Thorough:\s*(\d+)", src)
    o.append(f"### {i} {p['title']}\n")
    o.append(f"Method: {man[i]['technique']}.\n")
    o.append("What is run and judged: " + rule + "\n")
    if ass: o.append("Bounds and assumptions: " + "; ".join(ass) + ".\n")
    why = p.get("why_tests_cant", "")
    if why: o.append("Beyond the tests: " + why + "\n")
    o.append(f"Cost: {q.group(1)} cases quick, {q.group(2)} thorough (ends after about 700 s at the latest).\n")
    c = [s["id"] for s in seeds if s["property"] == i]
    if c: o.append("Planted bugs: " + ", ".join(c) + ".\n")
o.append("\n## Planted bugs\n\nEach was written from the text of the property and the code, passes the repository's tests and has a demonstration.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|")
for s in seeds:
    o.append(f"| {s['id']} | {s['needs']} | {s['what_it_breaks']} | {s.get('caught_by', s['property'])} |")
o.append("")
o.append(rd("doc/tail.md") if os.path.exists(root + "/doc/tail.md") else "")
o.append("\n## Known findings (not repaired)\n")
for k in known:
    if k["status"] == "open": o.append(f"* `{k['id']}` ({k['property']}): {k['what']}")
o.append("\n## Repaired defects (one `fix:` commit each)\n")
for k in known:
    if k["status"] == "fixed":
        w = k["what"].split(" ", 3)
        o.append(f"* {w[2]} ({k['property']}): {w[3]}")
open(root + "/DESIGN.md", "w").write("\n".join(o) + "\n")
