#!/usr/bin/env python3
"""gendesign.py DESCRIBE.json: writes DESIGN.md from the texts below, the properties, the explorer's own description of its spaces
(run.sh -describe), the known findings and the planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
desc = json.load(open(sys.argv[1]))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
finds = json.load(open(here + "/known_findings.json"))["findings"]
costs = json.load(open(here + "/tools/costs.json"))
head = open(here + "/tools/design_head.md").read()
tail = open(here + "/tools/design_tail.md").read()
texts = {}
cur = None
for l in open(here + "/tools/design_props.md"):
    if l.startswith("## "):
        cur = l[3:].strip(); texts[cur] = ""
    elif cur:
        texts[cur] += l
out = [head.rstrip(), "", "# The properties one by one", ""]
out += ["Per property: what is decided and how, the oracle, the explored spaces (N executions in the quick / thorough tier; the exact bounds are",
        "printed by `run.sh -describe` and repeated in every evidence file), cost on 8 cores, assumptions, and what this reaches beyond the tests.", ""]
for p in props:
    i = p["id"]; d = desc[i]
    out += [f"## {i} {p['title']}", ""]
    out += [texts[i].strip(), ""]
    out += [f"*Rule and oracle.* {d['Rule'][0].upper() + d['Rule'][1:]}", ""]
    if d["Assume"]:
        out += ["*Assumptions.* " + " ".join(a[0].upper() + a[1:].rstrip(".") + "." for a in d["Assume"]), ""]
    th = {x["Name"]: x for x in d["Thorough"]}
    rows = []
    for x in d["Quick"]:
        t = th.pop(x["Name"], None)
        rows.append((x["Name"], x["N"], t["N"] if t else "-", x["Bound"]))
    for x in th.values():
        rows.append((x["Name"], "-", x["N"], x["Bound"]))
    c = costs.get(i, {})
    out += [f"*Spaces* ({sum(x['N'] for x in d['Quick'])} executions quick, {sum(x['N'] for x in d['Thorough'])} thorough; about {c.get('quick', '?')} s and {'about ' + str(c['thorough']) if 'thorough' in c else 'at most 840'} s):", ""]
    out += ["| space | quick | thorough | bound |", "|---|---|---|---|"]
    for n, q, t, b in rows:
        b = b.replace("|", "/")
        out.append(f"| {n} | {q} | {t} | {b if len(b) < 210 else b[:207] + '...'} |")
    out.append("")
out += ["# Defects of the library found by the checks", "", "`known_findings.json` lists them in the required form. Repaired with `fix:` commits (each is found again by the quick tier when it is reverted):", ""]
for x in finds:
    if x["status"] == "fixed":
        out.append(f"* {x['property']} {x['commit']}: {x['what'].split(' ', 3)[3] if x['what'].startswith('fixed:') else x['what']}")
out += ["", "Recorded, not repaired (the checks print a `KNOWN-FINDING` line):", ""]
for x in finds:
    if x["status"] != "fixed":
        out.append(f"* {x['property']}: {x['what']}")
out.append("")
out += ["# Planted bugs", "", "Each folder of `seeded/` holds one change that compiles, passes the stable tests and breaks a property, with its demonstration.", "",
        "| bug | what it breaks | needs | noticed by |", "|---|---|---|---|"]
res = json.load(open(here + "/tools/seedresults.json"))
sd = here + "/seeded"
for s in sorted(os.listdir(sd)):
    m = json.load(open(f"{sd}/{s}/meta.json"))
    cell = lambda t: t.replace("|", "/").replace("\n", " ")
    out.append(f"| {s} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {res.get(s, 'not run')} |")
out += ["", tail.rstrip(), ""]
open(here + "/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines")
