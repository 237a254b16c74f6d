"""refreshes the per-property section of DESIGN.md from units, props_meta and seeded/"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props_meta
V = vlib.VERIF
head = open(V + "/DESIGN.md").read().split("<!-- PROPERTIES -->")[0] + "<!-- PROPERTIES -->\n"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
units = vlib.load_units()
out = ["\n## Properties\n"]
for p in props:
    i = p["id"]
    m = props_meta.META[i]
    out.append(f"### {i} {p['title']} — level `{m['level']}`\n")
    out.append(m["note"] + "\n")
    fs = []
    for u in units:
        for f in u.fns:
            if (f.props and i in f.props) or (not f.props and i in u.props):
                fs.append(f"`{f.name}`")
    if fs:
        us = [u.name for u in units if i in u.props or any(f.props and i in f.props for f in u.fns)]
        out.append(f"*Under contract* (unit {', '.join(us)}): " + ", ".join(dict.fromkeys(fs)) + ".\n")
    out.append("*Bounded only:* " + ("; ".join(m["bounded"]) or "nothing (the search only replays)") + ".\n")
out.append("\n## Planted changes and what catches them\n")
out.append("Each is in `seeded/<id>/` with a demonstration; *caught by* is the result of running the property's quick check on it.\n")
out.append("| id | needs | breaks | caught by |\n|---|---|---|---|")
cb = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    s = json.load(open(f"{V}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {s['needs']} | {s['what_it_breaks']} | {cb.get(d, '?')} |")
out.append("\n## Defects found and repaired\n")
for l in open(V + "/KNOWN_FINDINGS"):
    if l.startswith("fixed:"):
        out.append("* " + l[6:].strip())
open(V + "/DESIGN.md", "w").write(head + "\n".join(out) + "\n")
