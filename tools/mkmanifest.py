#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
NA = {
 "P22": "writing back and fetching pages are unimplemented!() in the code, so no contract of a terminating function can state it; the part of the pool that exists is P26 (see DESIGN.md)",
 "P23": "mounting, block reading and writing are unimplemented!() in the code, so there is no function whose postcondition could state it (see DESIGN.md)",
 "P24": "the parsers are LALRPOP table-driven generated code; no deductive verifier here takes the tables (see DESIGN.md)",
}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        P = PROPS[p]
        bk = []
        if P.get("units"): bk.append("Verus contracts on functions extracted from /repo on every run")
        if P.get("kani"): bk.append("Kani contracts on unsafe leaf functions")
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"python3 tools/check.py {p} thorough", "evidence_file": f"evidence/{p}.json",
          "technique": "contract-based deductive verification: " + "; ".join(bk) + " (failing inputs found by running the same contracts against the real crate)",
          "level": P.get("level", "proof"), "level_note": P.get("note", "All obligations over the extracted functions are discharged for all inputs.") + " Assumes: " + "; ".join(P.get("assumptions", [])) + ("; bounded: " + "; ".join(P["bounded"]) if P.get("bounded") else "") + "."})
    else: na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
 "hooks": {"guard": "cathlamet_verif", "enable": "RUSTFLAGS='--cfg cathlamet_verif' (set by tools/check.py when it builds harness/)", "source_commits": [x.strip() for x in open(os.path.join(ROOT, "tools/hook_commits.txt"))] if os.path.exists(os.path.join(ROOT, "tools/hook_commits.txt")) else []},
 "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
