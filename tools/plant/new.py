"""new(id, property, edits, needs, breaks, main): lays out a planted bug in /verif/seeded and confirms it with plant.sh"""
import json, os, subprocess, sys
W = "/tmp/plant"
def new(id, prop, edits, needs, breaks, main, only=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, old, rep in edits:
        p = f"{W}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "edit matches", s.count(old), "times in", f, repr(old[:60])); return
        open(p, "w").write(s.replace(old, rep))
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/main.rs", "w").write("mod kit;\nuse kit::*;\n\n" + main.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    subprocess.call(["bash", "/verif/tools/plant/plant.sh", id])
