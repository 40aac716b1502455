#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, so that the two stay in step."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"],
                        "thorough_cmd": "bash run.sh " + p["id"], "technique": p["tech"],
                        "level": "other", "level_note": p["note"]})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")

# DESIGN.md
import glob, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in glob.glob(here + '/lenscheck/*.go'):
    src = open(f).read()
    for m in re.finditer(r'checks\["(C\d+)"\] = (\w+)', src):
        body = src[src.index('func ' + m.group(2) + '('):]
        body = body[:body.index('\n}\n')]
        rules[m.group(1)] = re.findall(r'c\.Rule\("([^"]+)", "((?:[^"\\]|\\.)*)", (\d+)\)', body)
seeds = {}
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m['what_it_breaks']))
out = open(here + '/tools/design_head.md').read()
for p in PROPS:
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Why tests cannot settle it:* {p['why']}\n\n*Quantified over:* {p['quant']}.\n\n*Deciding technique:* {p['tech']}.\n\n*Rules (oracle):*\n\n"
    for r, t, n in rules[p['id']]:
        out += f"- `{r}`: {t}\n"
    out += f"\n*Bounds and limits:* {p['note']}\n"
    if p.get('design'):
        out += "\n" + p['design'] + "\n"
    if p['id'] in seeds:
        out += "\n*Planted bugs caught:* " + "; ".join(f"`{a}` ({b})" for a, b in seeds[p['id']]) + ".\n"
if NA:
    out += "\n### Not applicable\n\n"
    for p in NA:
        out += f"- {p['id']} {p['title']}: {p['reason']}\n"
out += "\n" + open(here + '/tools/design_tail.md').read()
open(here + '/DESIGN.md', 'w').write(out)
