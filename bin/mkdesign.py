#!/usr/bin/env python3
"""fill the tables of DESIGN.md from known_findings.json, seeded/*/meta.json and bin/caught.json"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(here + "/DESIGN.md").read()
F = json.load(open(here + "/known_findings.json"))["findings"]
t = "\n".join(f"* {f['property']} `{f['commit']}`: " + f["what"].split(f["commit"], 1)[1].strip() for f in sorted(F, key=lambda f: f["property"]) if f["status"] == "fixed")
C = json.load(open(here + "/bin/caught.json"))
rows = ["| planted bug | needs | caught by | added because of it |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = m.split("/")[-2]; d = json.load(open(m)); c = C.get(i, ["", ""])
    rows.append(f"| {i} | {d['needs']} | {d['property']} ({c[0]}) | {c[1]} |")
def put(s, mark, text):
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    if f"@@{mark}@@" in s:
        return s.replace(f"@@{mark}@@", f"{a}\n{text}\n{b}")
    i, j = s.index(a), s.index(b)
    return s[:i] + f"{a}\n{text}\n" + s[j:]
s = put(put(s, "FINDINGS", t), "SEEDS", "\n".join(rows))
open(here + "/DESIGN.md", "w").write(s)
