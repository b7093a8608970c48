#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, the property table, known-findings.txt and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "scouterx/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, na=na))
exec(open(os.path.join(V, "tools", "proptable.py")).read())
extra = json.load(open(os.path.join(V, "tools", "design.json"))) if os.path.exists(os.path.join(V, "tools", "design.json")) else {}
out, na = [], []
for p in P:
    d = os.path.join(V, "harness", p["id"].lower())
    if p["na"]:
        na.append("* **%s %s**: %s" % (p["id"], p["title"], p["na"]))
        continue
    if not os.path.isdir(d):
        na.append("* **%s %s**: no check yet" % (p["id"], p["title"]))
        continue
    out.append("### %s %s\n\n%s\n\nOver: %s. Tests: %s\n" % (p["id"], p["title"], p["statement"], p["text"], p["why"]))
    for f in sorted(glob.glob(d + "/*.go")):
        s = open(f).read()
        for m in re.finditer(r"((?://[^\n]*\n)*)func (H_\w+)\(\) \{(.*?)\n\}", s, re.S):
            doc = " ".join(l.strip("/ ") for l in m.group(1).strip().split("\n"))
            doc = re.sub(r"^H_\w+:\s*", "", doc)
            b = "; ".join(re.findall(r'vrt\.Bound\("(.*?)"\)', m.group(3)))
            out.append("* `%s`: %s Bounds: %s." % (m.group(2), doc, b or "see the source"))
    if p["id"] in extra:
        out.append("\n" + extra[p["id"]])
    out.append("")
fixed = []
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append("* %s, commit %s: %s" % m.groups())
    elif l.strip() and not l.startswith("#"):
        fixed.append("* not repaired: " + l.strip())
seeds = ["| change | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"] + m.get("note", ""), m["needs"], m["what_it_breaks"]))
t = open(os.path.join(V, "tools", "design.tmpl.md")).read()
for k, v in (("TABLE", out), ("NA", na or ["Nothing so far."]), ("FIXED", fixed), ("SEEDS", seeds)):
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
