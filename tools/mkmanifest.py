#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (claims every property that has vlib/<id>.py)
and the per-property section of DESIGN.md from tools/levels.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na, sec = [], [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if os.path.exists(os.path.join(V, "vlib", i.lower() + ".py")):
        n = L[i]
        spec = re.match(r"[A-Za-z0-9]+", n["model"]).group(0)
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            technique="TLA+ model (%s) checked exhaustively with TLC, its behaviours replayed into the code, recorded traces validated with TLC" % spec,
            level="model_checking", level_note="Model: %s. Code: %s. Bounds: %s. Trusts TLC, the compiler and the driver's encoding of states." % (n["model"], n["code"], n["bound"])))
        sec.append("### %s %s\n\n* **Specified / checked by TLC:** %s.\n* **Bound to the code:** %s.\n* **Bounds:** %s.\n* **Beyond the tests:** %s\n" % (i, p["title"], n["model"], n["code"], n["bound"], p["why_tests_cant"]))
    else: na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the drivers in drv/ use the public API and link-time interposition. Specifications in spec/, see DESIGN.md."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
d = os.path.join(V, "DESIGN.md"); s = open(d).read(); A, B = "<!-- properties -->\n", "<!-- /properties -->\n"
if A in s: s = s[:s.index(A) + len(A)] + "\n".join(sec) + s[s.index(B):]
else: s += "\n## Property by property\n\n" + A + "\n".join(sec) + B
open(d, "w").write(s)
