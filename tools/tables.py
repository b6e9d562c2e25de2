"""Writes the generated parts of DESIGN.md: what each harness enumerates (from the evidence of a quick run), and
which harness catches which planted bug (from tools/plant/caught.tsv)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["<!-- harnesses -->", "", "| check | harness | enumerated | executions |", "|---|---|---|---|"]
for i in range(1, 21):
    e = json.load(open(f"{V}/evidence/C{i:02}.json"))
    assert e["tier"] == "quick", e["tier"]
    for h in e["coverage"]["harnesses"]:
        dev = h.get("deviation_bound") or 0
        b = h["bounds"].replace("|", "/")
        out.append(f"| C{i:02} | `{h['name']}` | {b} | {h['executions_compared']} |")
out += ["", "<!-- /harnesses -->"]
plants = ["<!-- plants -->", "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for line in open(f"{V}/tools/plant/caught.tsv"):
    id, c, rc, h = line.rstrip("\n").split("\t")
    f = f"{V}/seeded/{id}/meta.json"
    if not os.path.exists(f): continue
    m = json.load(open(f))
    plants.append(f"| {id} | {m['property']} | {m['needs'].replace('|', '/')} | {c + ' `' + h + '`' if rc == 'rc=1' else 'not caught'} |")
plants += ["", "<!-- /plants -->"]
p = f"{V}/DESIGN.md"
s = open(p).read()
for name, lines in [("harnesses", out), ("plants", plants)]:
    s = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda _: "\n".join(lines), s, flags=re.S)
open(p, "w").write(s)
