#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.catalog import P, NA, NAP, COMMON
from sa.rules import RULES

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(list(P) + list(NAP)):
        p = P.get(k) or NAP[k]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = []
for k in sorted(P):
    assert k in RULES, k
    p = P[k]
    checks.append(dict(property=k, quick_cmd=f"python3 run.py {k} quick", thorough_cmd=f"python3 run.py {k} thorough",
                       technique=p["technique"], level="other", level_note=p["note"][:1].upper() + p["note"][1:] + " Trusts the library models in sa/models.py and the call histories of sa/tour.py; what cannot be resolved is recorded as undetermined, never reported."))
man = dict(version=1, setup_cmd="python3 -c 'import sa.rules'", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
           notes="Static analysis only: an abstract interpreter for the package (sa/) and one rule per property. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for k in RULES:
    assert k in P, k

MARK = "<!-- generated by tools/gen.py below this line -->\n"
doc = open(os.path.join(HERE, "DESIGN.md")).read().split(MARK)[0]
out = [doc, MARK, "\n"]
for k in sorted(P):
    p = P[k]
    how = p["how"].replace(COMMON, "").strip()
    out.append(f"**{k} {p['title']}.** Quantifies {p['quant']}. *Technique:* {p['technique']}. {how} *Limits:* {p['note']} *Why not tests:* {p['why']}\n\n")
out.append("## Not applicable\n\n")
for k, v in sorted(NA.items()):
    out.append(f"* {k} {NAP[k]['title']}: {v}.\n")
out.append("\n## Planted bugs (`seeded/`), each caught by the check of its own property\n\n| id | property | what it breaks | needs |\n|---|---|---|---|\n")
seeds = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(seeds)) if os.path.isdir(seeds) else []:
    m = json.load(open(os.path.join(seeds, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n".replace("\n|", "|"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
