#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE — reads from stdin a JSON {old,new,file | edits:[{file,old,new}], needs, breaks, kos, reps}; writes seeded/ID"""
import sys, json, os, subprocess
def mk(id, prop, edits, needs, breaks, kos=None, reps=1, sh=None, files=None):
    d = os.environ.get("MKSEED_OUT", "/verif/seeded/") + id; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"; subprocess.call(["rm", "-rf", "/tmp/mkseed"]); os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C /tmp/mkseed && cd /tmp/mkseed && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    if kos:
        open(d + "/demo.kos", "w").write(kos)
        open(d + "/demo.sh", "w").write("#!/bin/bash\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nfor i in $(seq %d); do timeout 100 /repo/Out/vp/interpreter/kos \"$D/demo.kos\" || exit 1; done\n" % reps)
    if sh: open(d + "/demo.sh", "w").write(sh)
    for k, v in (files or {}).items(): open(d + "/" + k, "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.call(["rm", "-rf", "/tmp/mkseed"])
