#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE <<< JSON {needs, what, old, new, demo}: create seeded/ID from an edit of one file."""
import json, os, subprocess, sys, tempfile, shutil
def make(sid, prop, edits, needs, what, demo):
    V = os.environ.get("VERIF_DIR", "/verif"); R = os.environ.get("VERIF_REPO", "/repo")
    d = V + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="ns_")
    try:
        subprocess.check_call(["git", "-C", R, "worktree", "prune"])
        subprocess.check_call("git -C " + R + " archive HEAD | tar x -C " + w, shell=True)
        subprocess.check_call("cd %s && git init -q . && git add -Af . && git -c user.email=a -c user.name=a commit -qm b" % w, shell=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.py", "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
