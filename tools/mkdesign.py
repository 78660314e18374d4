"""Rewrites the generated tables of DESIGN.md: repaired defects and seeded bugs."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{V}/DESIGN.md").read()


def put(name, lines):
    global s
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + "\n".join(lines) + "\n" + m[2], s, flags=re.S)


rows = ["| property | commit | what failed |", "| --- | --- | --- |"]
for l in open(f"{V}/known_findings.jsonl"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        rows.append(f"| {m[1]} | {m[2][:10]} | {m[3]} |")
put("fixes", rows)
rows = ["| seeded bug | caught by | needs |", "| --- | --- | --- |"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
put("seeds", rows)
open(f"{V}/DESIGN.md", "w").write(s)
