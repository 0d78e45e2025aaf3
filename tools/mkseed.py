#!/usr/bin/python3
"""Development aid: build /verif/seeded/<id>/ from a description.

mkseed.py ID PROPERTY < file with sections:
@file path            (source file the following edit applies to)
@old ... @new ...     (exact text replaced once)
@demo                 (python, run with compat.py beside it)
@needs / @breaks      (one line each)
"""
import json, os, re, shutil, subprocess, sys, tempfile
sid, prop = sys.argv[1:3]
text = sys.stdin.read()
parts = re.split(r"^@(file|old|new|demo|needs|breaks)\b[ ]?", text, flags=re.M)[1:]
edits, cur, demo, needs, breaks = [], None, "", "", ""
old = None
for k, v in zip(parts[::2], parts[1::2]):
    v = v[1:] if v.startswith("\n") else v
    if k == "file": cur = v.strip()
    elif k == "old": old = v
    elif k == "new": edits.append((cur, old, v))
    elif k == "demo": demo = v
    elif k == "needs": needs = v.strip()
    elif k == "breaks": breaks = v.strip()
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w"])
try:
    for f, o, n in edits:
        p = f"{tmp}/w/{f}"
        s = open(p).read()
        assert s.count(o) == 1, f"{f}: old text occurs {s.count(o)} times:\n{o}"
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"]).decode()
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
    os.rmdir(tmp)
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/verif/tools/demo/compat.py", d + "/compat.py")
open(d + "/demo.py", "w").write("from compat import *\n" + demo)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
