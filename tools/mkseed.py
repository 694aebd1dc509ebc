#!/usr/bin/env python3
"""mkseed.py ID PROP FILE : old/new text on stdin separated by a line '====' (several edits separated by '####');
writes seeded/ID/patch.diff against /repo's HEAD"""
import os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, fn = sys.argv[1], sys.argv[2]
d = os.path.join(H, "seeded", sid)
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", tmp+"/r"])
    edits = sys.stdin.read().split("\n####\n")
    cur = fn
    for e in edits:
        if e.startswith("FILE "):
            cur, e = e.split("\n", 1)
            cur = cur[5:].strip()
        old, new = e.split("\n====\n") if "\n====\n" in e else (e.split("\n====")[0], "")
        old, new = old.strip("\n"), new.strip("\n")
        p = os.path.join(tmp, "r", "cocotbext/axi", cur)
        s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp+"/r", "diff"]).decode()
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
finally:
    shutil.rmtree(tmp)
