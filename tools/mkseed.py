#!/usr/bin/env python3
"""Development aid: mkseed.py ID PROP FILE <<< JSON {old,new | edits:[[file,old,new]..], needs, breaks, demo}"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, needs, breaks, demo):
    d = f"{ROOT}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in edits:
            p = "/repo/src/" + f; s = open(p).read()
            assert s.count(o) >= 1, (id, f, o, s.count(o))
            assert s.count(o) == 1, (id, "ambiguous", s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/main.rs", "w").write(demo)
    shutil.copy(ROOT + "/tools/seedtpl/demo.sh", d + "/demo.sh")
