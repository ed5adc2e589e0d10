"""Assemble DESIGN.md from tools/design/*.md plus generated tables (findings, seeds)."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{R}/properties.jsonl")]
part = {}
for f in sorted(glob.glob(f"{R}/tools/design/*.md")):
    part[os.path.basename(f)[:-3]] = open(f).read().rstrip() + "\n"
out = [part["00-intro"], "\n## How each property is decided\n"]
for p in props:
    out.append(f"\n### {p['id']} {p['title']}\n\n" + part[p["id"]])
out.append("\n" + part["80-alarms"])
out.append("\n## Defects found and repaired\n\n(commit in /repo, what failed; generated from known_findings.json)\n\n")
k = json.load(open(f"{R}/known_findings.json"))
for e in k["fixed"]:
    p, c, what = e.removeprefix("fixed: property=").split(" ", 2)
    out.append(f"* {p} `{c}` {what}\n")
out.append(f"\nRecorded but not repaired: {len(k['findings'])}.\n")
out.append("\n## Planted bugs and the checks that catch them\n\nEach was confirmed in a scratch copy (builds, stable tests pass, demo 0/≠0) with `tools/seed.py confirm` and run against the checks with `tools/seed.py catch`.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
caught = json.load(open(f"{R}/tools/design/caught.json"))
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, ['?']))} |\n")
out.append("\n" + part["90-notes"])
open(f"{R}/DESIGN.md", "w").write("".join(out))
