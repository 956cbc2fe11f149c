#!/usr/bin/env python3
"""Tables of DESIGN.md between the markers, from MANIFEST, evidence, units.json and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = lambda p: json.load(open(os.path.join(V, p)))


def props():
    out = ["| | obligations | functions | trusted items | bounded cases (quick) | wall s |", "|---|---|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        e = json.load(open(f)); c = e["coverage"]
        out.append(f"| {e['property']} | {c['discharged']} | {len(c['functions_under_contract'])} | {len(c['trusted_base'])} | "
                   f"{c['bounded_not_proved']['evaluations']} | {round(e['wall_s'])} |")
    return "\n".join(out)


def seeds():
    caught = {}
    p = V + "/tools/seed_results.json"
    if os.path.exists(p):
        caught = json.load(open(p))
    out = ["| seeded change | property | what it breaks | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, '')} |")
    return "\n".join(out)


t = open(V + "/DESIGN.md").read()
for name, fn in (("numbers", props), ("seeds", seeds)):
    t = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + fn() + "\n" + m.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
