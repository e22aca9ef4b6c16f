#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta
with open(V + "/properties.jsonl", "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in meta.P:
    i = p["id"]
    if os.path.exists(f"{V}/props/{i}.py") and i not in meta.NA:
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                           technique=meta.TECH, level="model_checking", level_note=meta.LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=meta.NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./check.py C01 --list", checks=checks, not_applicable=na,
               notes="All checks read /repo/src at run time; see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
