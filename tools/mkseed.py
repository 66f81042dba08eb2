"""mkseed.py: read a python file defining SEEDS = [dict(id, property, file, edits=[(old,new)...] or {file: edits}, needs, breaks, demo)]
and write /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys

V = "/verif/seeded"
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = f"/tmp/mk_{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    files = s["file"] if isinstance(s["file"], dict) else {s["file"]: s["edits"]}
    ok = True
    for f, edits in files.items():
        p = f"{d}/src/tranquilo/{f}"
        t = open(p).read()
        for old, new in edits:
            if t.count(old) != 1:
                print(s["id"], "old text occurs", t.count(old), "times:", old[:80]); ok = False
            t = t.replace(old, new)
        open(p, "w").write(t)
    if not ok:
        shutil.rmtree(d); continue
    o = f"{V}/{s['id']}"
    os.makedirs(o, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print("wrote", s["id"])
