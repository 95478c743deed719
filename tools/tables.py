"""Rewrites the generated tables of DESIGN.md (repairs, planted bugs) between their markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(V, "DESIGN.md")).read()


def put(d, name, body):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + body + m.group(2), d, flags=re.S)


fx = {}
for l in open(os.path.join(V, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m:
        fx.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
body = "| commit | property | what failed |\n|---|---|---|\n" + "".join(
    f"| {k} | {', '.join(p for p, _ in v)} | {v[0][1]} |\n" for k, v in fx.items())
d = put(d, "fixes", body)
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    c = caught.get(i)
    rows.append((m["property"], f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} | {', '.join(c) if c else 'none' if c == [] else '?'} |\n"))
d = put(d, "seeded", "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "".join(r for _, r in sorted(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(fx), "repairs", len(rows), "planted")
