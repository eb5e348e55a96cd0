#!/usr/bin/env python3
"""tools/design.py : regenerate DESIGN.md from the properties, the checks' own bounds, the findings and the planted bugs."""
import ast, json, re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
notes = json.loads((V / "tools/level_notes.json").read_text())
finds = [json.loads(l) for l in (V / "KNOWN_FINDINGS.jsonl").read_text().splitlines() if l.strip()]
head = (V / "tools/design_head.md").read_text()
tail = (V / "tools/design_tail.md").read_text()
texts = dict(re.findall(r"^## (\w+)\n(.*?)(?=^## |\Z)", (V / "tools/design_props.md").read_text(), re.S | re.M))


def meta(i):
    for n in ast.parse((V / f"checks/{i}.py").read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            return ast.literal_eval(n.value)


seeds = {}
for d in sorted((V / "seeded").iterdir()):
    if (d / "meta.json").exists():
        m = json.loads((d / "meta.json").read_text())
        seeds.setdefault(m["property"], []).append((d.name, m))
catch = json.loads((V / "tools/catches.json").read_text()) if (V / "tools/catches.json").exists() else {}
o = [head.rstrip(), "", "## The properties and how each is decided", ""]
for p in props:
    i = p["id"]
    if not (V / f"checks/{i}.py").exists():
        o += [f"### {i}. {p['title']}", "", "Not claimed; see MANIFEST.json.", ""]
        continue
    m = meta(i)
    o += [f"### {i}. {p['title']}", "", f"*Technique:* {notes[i]['technique']}.", "", notes[i]["note"], "", texts.get(i, "").strip(), "",
          f"*Beyond tests:* {p['why_tests_cant']} *Anchored in* " + ", ".join(p["anchors"]["files"]) + ".", "",
          f"*Quick bounds:* {m['bounds']['quick']}.", "", f"*Thorough bounds:* {m['bounds']['thorough']}.", "", "*Assumptions:* " + "; ".join(m["assumptions"]) + ".", ""]
    n = sum(1 for f in finds if f["property"] == i and f["status"] == "fixed")
    k = sum(1 for f in finds if f["property"] == i and f["status"] != "fixed")
    b = ", ".join(s for s, _ in seeds.get(i, []))
    o += [f"*Findings:* {n} repaired" + (f", {k} known" if k else "") + ("; *planted bugs:* " + b if b else "") + ".", ""]
o += ["## Genuine defects found", "", "Repaired by `fix:` commits (recorded in KNOWN_FINDINGS.jsonl, which suppresses nothing for them):", ""]
for f in finds:
    if f["status"] == "fixed":
        o.append(f"* {f['property']} {f['commit'][:7]}: {re.sub(r'^fixed: property=[A-Z0-9]+ [0-9a-f]+ ', '', f['what'])}")
o += ["", "Recorded, not repaired:", ""]
for f in finds:
    if f["status"] != "fixed":
        o.append(f"* {f['property']}: {f['what']}")
o += ["", "## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for i, l in sorted(seeds.items()):
    for s, m in l:
        o.append(f"| {s} | {i} | {m['needs']} | {', '.join(catch.get(s, [i]))} |")
o += ["", tail.rstrip(), ""]
(V / "DESIGN.md").write_text("\n".join(o))
