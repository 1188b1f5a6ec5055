"""Writes seeded/<id>/ from the definitions in tools/seeds/*.seed (python dicts): patch.diff is made against /repo's HEAD."""
import difflib, glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for f in sorted(glob.glob(f"{V}/tools/seeds/*.seed")):
    ns = {}
    exec(open(f).read(), ns)
    i = os.path.basename(f)[:-5]
    if only and i not in only:
        continue
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    patch = ""
    edits = {}
    for fn, old, new in ns["EDITS"]:
        p = "src/megatron/energon/" + fn
        if p not in edits:
            src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + p], text=True)
            edits[p] = [src, src]
        assert edits[p][1].count(old) == 1, (i, fn, edits[p][1].count(old), old)
        edits[p][1] = edits[p][1].replace(old, new)
    for p, (a, b) in edits.items():
        patch += f"diff --git a/{p} b/{p}\n" + "".join(
            difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/demo.py", "w").write("from lib import *\n\n\ndef main(root):\n" + "".join("    " + l if l.strip() else l for l in ns["DEMO"].strip("\n").splitlines(True)) + "\n\n\nif __name__ == \"__main__\":\n    with scratch() as d:\n        main(d)\n    print(\"ok\")\n")
    shutil.copy(f"{V}/tools/seeds/lib.py", d)
    open(f"{d}/demo.sh", "w").write("#!/bin/bash\n# run with cwd /repo; exit 0: the property holds\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\ntimeout 250 /opt/venv/bin/python \"$here/demo.py\"\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", i)
