#!/usr/bin/env python3
"""newbug.py ID PROP FILE: reads a spec from stdin as python: OLD, NEW (optionally COUNT), NEEDS, BREAKS, DEMO; writes seeded/ID."""
import json, os, subprocess, sys
i, prop, f = sys.argv[1:4]
g = {}
exec(sys.stdin.read(), g)
path = os.path.join(os.environ.get("VP_SRC", "/repo"), f)
src = open(path).read()
edits = g.get("EDITS") or [(g["OLD"], g["NEW"])]
new = src
for o, n in edits:
    assert new.count(o) == 1, (new.count(o), o)
    new = new.replace(o, n)
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", os.environ.get("VP_SRC", "/repo"), "status", "--porcelain"])
open(path, "w").write(new)
try:
    diff = subprocess.check_output(["git", "-C", os.environ.get("VP_SRC", "/repo"), "diff"], text=True)
    # removed lines must be original lines
    base = subprocess.check_output(["git", "-C", os.environ.get("VP_SRC", "/repo"), "show", "27f1ea1:" + f], text=True).splitlines()
    rem = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
    for r in rem:
        if r.strip() and r not in base:
            print("WARNING not an original line:", r)
    if not rem:
        print("WARNING: only additions")
finally:
    subprocess.check_call(["git", "-C", os.environ.get("VP_SRC", "/repo"), "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(g["DEMO"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
