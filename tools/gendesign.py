#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the suites of the checker and the planted bugs filled in."""
import json, subprocess, os, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = [l.split("\t") for l in subprocess.run(["mc/target/release/mc", "suites"], capture_output=True, text=True, check=True).stdout.splitlines()]
per = collections.OrderedDict()
for p, n, a in rows:
    per.setdefault(p, []).append((n, a))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("properties.jsonl")}
notes = json.load(open("tools/design_notes.json"))
out = []
for p, ss in per.items():
    out.append(f"### {p} {titles[p]}\n")
    if p in notes:
        out.append(notes[p] + "\n")
    for n, a in ss:
        out.append(f"- *{n}*: {a}.")
    out.append("")
seeds = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open("tools/caught.json"))
for i in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{i}/meta.json"))
    seeds.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, 'not run')} |")
t = open("tools/design.md").read()
t = t.replace("@SUITES@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds))
open("DESIGN.md", "w").write(t)
