"""DESIGN.md = tools/design_head.md + one section per property (tools/design/<ID>.md) + tools/design_tail.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f"{V}/tools/design_head.md").read()
out += "\n## The properties\n"
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    out += f"\n### {p['id']} {p['title']}\n\n"
    f = f"{V}/tools/design/{p['id']}.md"
    out += open(f).read() if os.path.exists(f) else "(no check yet)\n"
t = f"{V}/tools/design_tail.md"
if os.path.exists(t):
    t = open(t).read()
    rows = "| bug | needs | caught by |\n|---|---|---|\n"
    caught = {}
    for l in open(f"{V}/tools/caught.txt"):
        if l.strip():
            a, *b = l.split()
            caught[a] = " ".join(b)
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        rows += f"| {d} | {m['needs']} | {caught.get(d, m['property'])} |\n"
    mut = f"{V}/tools/mutants.md"
    t = t.replace("@SEEDS@", rows.rstrip()).replace("@MUT@", open(mut).read() if os.path.exists(mut) else "")
    out += "\n" + t
open(f"{V}/DESIGN.md", "w").write(out)
