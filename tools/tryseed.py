#!/usr/bin/env python3
"""Development aid: tryseed.py ID...  validates seeded/<ID> against /repo (applied, then undone) and
shows whether the property's check catches it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t=900): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
base = json.load(open("/opt/vp/BASELINE.json")); 
def names(d):
    for k in ("passed", "stable", "tests", "pass"):
        if k in d: v = d[k]; return set(v if isinstance(v, list) else [x for x in v])
    return set()
assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
for i in sys.argv[1:]:
    if i.startswith("-"): continue
    d = f"{ROOT}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); out = [i, meta["property"]]
    try:
        if "-nodemo" not in sys.argv:
            r = sh(f"cd /repo && bash {d}/demo.sh"); out.append(f"demo clean rc={r.returncode}")
            if r.returncode: print(r.stdout[-800:], r.stderr[-1500:])
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "patch does not apply", r.stderr); continue
        r = sh("bash /opt/vp/build.sh"); out.append(f"build rc={r.returncode}")
        if r.returncode: print(r.stderr[-2000:])
        r = sh("bash /opt/vp/test.sh /tmp/tt.json"); t = json.load(open("/tmp/tt.json")); out.append("tests " + ("ok" if names(base) <= names(t) and r.returncode == 0 else f"FAIL {sorted(names(base)-names(t))} rc={r.returncode}"))
        if "-nodemo" not in sys.argv:
            r = sh(f"cd /repo && bash {d}/demo.sh"); out.append(f"demo patched rc={r.returncode}")
        t0 = time.time(); r = sh(f"cd {ROOT} && VERIF_SEED=1 python3 tools/check.py {meta['property']}"); out.append(f"check rc={r.returncode} {time.time()-t0:.0f}s " + " ".join(l for l in r.stdout.splitlines() if l.startswith("VIOLATION")))
        if "-v" in sys.argv or r.returncode != 1: print(r.stdout[-2500:], r.stderr[-800:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(out), flush=True)
sh("bash /opt/vp/build.sh")
