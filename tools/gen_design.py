"""writes DESIGN.md"""
import ast
import json
import os

import meta
from oracles import O

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)
    return ""


out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for p in meta.P:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in meta.NA:
        out.append(f"Not applicable: {meta.NA[i]}\n")
        continue
    t = ast.parse(open(os.path.join(V, "props", i + ".py")).read())
    out.append(f"*Statement.* {p['statement']}\n")
    out.append(f"*Deciding step and oracle.* {O[i]}\n")
    out.append(f"*Bounds.* {const(t, 'BOUNDS')}.\n")
    out.append(f"*Outside.* {const(t, 'OUTSIDE')}.\n")
    out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}. *Anchors:* " + ", ".join(p["anchors"]["files"]) + ".\n")
out.append("## 3. Findings\n\nEvery one was shown against the real code before it was repaired or recorded.\n")
k = json.load(open(os.path.join(V, "known-findings.json")))
k = k if isinstance(k, list) else k["findings"]
for f in k:
    out.append(f"* **{f['id']}** ({f['property']}, {f['status']}{' ' + f['commit'] if 'commit' in f else ''}): {f['what']}")
out.append("\n" + open(os.path.join(V, "tools", "design_notes.md")).read())
out.append("## 5. Planted changes (`seeded/`)\n\nAll build, pass the 106 stable tests and have a demonstration; the last column is the check that reports it.\n")
out.append("| change | needs | breaks | caught by |\n|---|---|---|---|")
miss = json.load(open(os.path.join(V, "tools", "missed.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    c = miss.get(d, m["property"])
    e = lambda s: s.replace("|", "/").replace("\n", " ")
    out.append(f"| {d} | {e(m['needs'])} | {e(m['what_it_breaks'])} | {c} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
