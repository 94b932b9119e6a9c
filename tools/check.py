#!/usr/bin/env python3
"""Decide one property: contracts on the functions extracted from /repo (Verus), Kani on unsafe
leaf functions, and a search for a concrete failing input with the executable form of the
contracts.   usage: check.py PROP      (VERIF_SEED, VERIF_TIER from the environment)"""
import json, os, re, subprocess, sys, threading, time, hashlib, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo/src"
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS

START = time.time()
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + ENV.get("PATH", "")
ENV.setdefault("HOME", "/root")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"): ENV.pop(k, None)

def sh(cmd, timeout, cwd=ROOT, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        try: o, e = p.communicate(timeout=10)
        except Exception: o, e = "", ""
        return -999, o, e, time.time() - t

DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero", "loop invariant", "assert_by", "decreases not satisfied", "unreachable", "constructed value may fail", "bitvector", "possible bit shift", "failed this postcondition", "cannot show", "requires not satisfied")
RESOURCE = ("rlimit", "Resource limit", "timed out", "timeout", "solver")

class Verus:
    """One unit in one variant."""
    def __init__(self, unit, variant, work, tier, only=None):
        self.only = only; self.search = None; self.unit, self.variant, self.work, self.tier = unit, variant, work, tier
        self.status = "undecided"; self.reason = ""; self.failed = []; self.obl = 0; self.disch = 0; self.meta = {}; self.secs = 0.0; self.smt = 0.0; self.trusted = []; self.text = ""; self.vacuous = []; self.tired = []; self.probed = 0; self.flaky = False
    def extract(self, name, probe=False):
        rs = os.path.join(self.work, f"{name}.rs"); js = os.path.join(self.work, f"{name}.json")
        for f in (rs, js):
            if os.path.exists(f): os.remove(f)
        env = dict(ENV)
        if probe: env["VX_PROBE"] = "1"
        rc, o, e, _ = sh([os.path.join(ROOT, "tools/vx/target/release/vx"), os.path.join(ROOT, "units", self.unit + ".unit"), self.variant, REPO, rs, js], 120, env=env)
        if rc != 0: return None, None, (e or o).strip()[-2000:]
        return rs, json.load(open(js)), ""
    def verus(self, rs, extra=()):
        # proofs end 430 s after the start, so that the search can still look for an input of what fails
        rc, o, e, secs = sh(["verus", os.path.basename(rs), "--output-json", "--time", "--triggers-mode", "silent", "--multiple-errors", "3", *extra, "--", "--error-format=json"], max(20, 430 - (time.time() - START)), cwd=self.work)
        self.secs += secs
        errs = []
        for line in e.splitlines():
            try: d = json.loads(line)
            except ValueError: continue
            if d.get("level") == "error": errs.append(d)
        try: j = json.loads(o[o.index("{"):])
        except ValueError: j = {}
        return rc, j, errs, e
    def where(self, lines, n):
        for i in range(min(n, len(lines)) - 1, -1, -1):
            m = re.match(r"// ---- (\S+) :: (\S+)", lines[i])
            if m: return m.group(1) + " " + m.group(2)
            m = re.match(r"\s*pub (?:broadcast )?proof fn (\w+)", lines[i])
            if m: return "lemma " + m.group(1)
        return "?"
    def run(self):
        name = f"{self.unit}_{self.variant}"
        rs, self.meta, err = self.extract(name)
        if rs is None: self.reason = "extraction: " + err; return
        self.text = open(rs).read(); lines = self.text.split("\n")
        code = re.sub(r"//.*", "", self.text)
        for m in re.finditer(r"external_body\]\s*(?:pub\s+)?(?:proof\s+|broadcast\s+|axiom\s+)*(?:fn|struct|type)\s+(\w+)", code): self.trusted.append("external_body " + m.group(1))
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", code): self.trusted.append("assume_specification " + m.group(1))
        for m in re.finditer(r"axiom fn (\w+)", code): self.trusted.append("axiom " + m.group(1))
        for m in re.finditer(r"uninterp spec fn (\w+)", code): self.trusted.append("uninterpreted " + m.group(1))
        for a in self.meta.get("assumed", []): self.trusted.append("contract proved elsewhere: " + a)
        for w in ("assume(", "admit("):
            if w in code: self.trusted.append(f"{code.count(w)} x {w})")
        attempts = [("--rlimit", "20"), ("--rlimit", "60", "--smt-option", "smt.random_seed=7"), ("--rlimit", "60", "--smt-option", "smt.random_seed=31")]
        fails = None
        for k, ex in enumerate(attempts):
            if k and time.time() - START > 400: self.reason += "; out of time for another attempt"; fails = []; break
            rc, j, errs, raw = self.verus(rs, ex)
            if rc == -999: self.reason = "resource limit: out of time"; fails = []; break
            vr = j.get("verification-results", {})
            ok = vr.get("success", False) and rc == 0
            self.obl = vr.get("verified", 0) + vr.get("errors", 0); self.disch = vr.get("verified", 0)
            self.smt = j.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000.0 or self.smt
            if ok:
                if self.obl == 0: self.reason = "no obligations"; return
                self.status = "proved"; self.flaky = k > 0; break
            cur = []; soft = []
            for d in errs:
                msg = d.get("message", "")
                if msg.startswith("aborting due to"): continue
                sp = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
                allsp = d.get("spans", [])
                ln = sp[0]["line_start"] if sp else 0
                # the function whose body the obligation belongs to: the last span in source order
                body = max([s["line_start"] for s in allsp] or [0])
                fn = self.where(lines, body if "postcondition" in msg else ln)
                txt = sp[0]["text"][0]["text"].strip() if sp and sp[0].get("text") else ""
                rec = {"obligation": msg, "in": fn, "at": txt, "rendered": d.get("rendered", "")[:1500]}
                if d.get("code") is None and any(x in msg for x in DEFINITE) and not any(x in msg for x in RESOURCE): cur.append(rec)
                else: soft.append(rec)
            if vr.get("encountered-vir-error") or not vr or any(d.get("code") for d in errs):
                self.reason = "not accepted by the verifier: " + "; ".join(r["obligation"] + " [" + r["at"] + "]" for r in (soft + cur))[:1500]; return
            if soft and not cur: self.reason = "resource limit: " + "; ".join(r["obligation"][:80] + " in " + r["in"] for r in soft)[:800]; fails = []; continue
            key = {(r["in"]) for r in cur}
            fails = cur if fails is None else [r for r in fails if r["in"] in key] or fails and []
            # a failing input exists: no doubt about the verdict is left to be removed by further attempts
            if fails and self.search and self.search.status == "violation": break
            if fails == []: self.reason = "unstable: " + "; ".join(r["in"] for r in cur)
        if self.status != "proved":
            if fails:
                mine = [r for r in fails if self.only is None or re.search(self.only, r["in"]) or r["in"].startswith("lemma") or r["in"] == "?"]
                if not mine: self.reason = "only functions of other properties in this unit fail: " + "; ".join(r["in"] for r in fails)[:600]; return
                self.failed = fails = mine
                w = self.meta.get("warnings", []); inl = self.meta.get("inlined", [])
                if w or inl: self.reason = "structure of the code changed (" + "; ".join(w + inl)[:500] + "), failing: " + "; ".join(f"{r['obligation']} in {r['in']}" for r in fails)[:800]
                else: self.status = "failed"
            return
        # vacuity: every function under contract must be able to reach its body
        prs, _, err = self.extract(name + "_probe", probe=True)
        if prs:
            rc, j, errs, raw = self.verus(prs, ("--rlimit", "3"))
            pl = open(prs).read().split("\n")
            hit = set()
            for d in errs:
                for s in d.get("spans", []):
                    n = s["line_start"]
                    if 0 < n <= len(pl) and "VXPROBE" in pl[n - 1]: hit.add(n)
            allp = [i + 1 for i, l in enumerate(pl) if "VXPROBE" in l]
            self.probed = len(hit)
            # a probe that runs out of resources has not derived a contradiction: reported, not counted as unreachable
            tired = {self.where(pl, x["line_start"]) for d in errs if any(r in d.get("message", "") for r in RESOURCE) for x in d.get("spans", []) if x.get("is_primary")}
            if j.get("verification-results", {}).get("encountered-vir-error") or any(d.get("code") for d in errs): self.reason = "probe not accepted by the verifier"; return
            self.tired = sorted({self.where(pl, n) for n in allp if n not in hit} & tired); self.vacuous = [self.where(pl, n) for n in allp if n not in hit and self.where(pl, n) not in tired]

def kani(work, harnesses, out):
    t = time.time()
    args = ["cargo", "kani", "--output-format", "terse", "-j", "8"]
    for h in harnesses: args += ["--harness", h]
    rc, o, e, secs = sh(args, 800, cwd=os.path.join(ROOT, "kani"))
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    out["secs"] = secs
    open(os.path.join(work, "kani.log"), "w").write(o + e)
    if not m: out["status"] = "undecided"; out["reason"] = (e or o)[-800:]; return
    out["ok"], out["bad"], out["total"] = map(int, m.groups())
    out["checks"] = sum(int(x) for x in re.findall(r"\*\* 0 of (\d+) failed", o))
    if out["total"] == 0: out["status"] = "undecided"; out["reason"] = "no harness"; return
    if out["bad"] == 0 and re.search(r"\*\* 0 of \d+ cover properties satisfied", o): out["status"] = "undecided"; out["reason"] = "a harness is vacuous"; return
    if out["bad"] == 0: out["status"] = "proved"; return
    bad = re.findall(r"Verification failed for - (\S+)", o) 
    fl = [x for x in re.findall(r"Failed Checks: (.*)", o)]
    if not fl or all("unwinding" in x or "not currently supported" in x or "unsupported" in x for x in fl): out["status"] = "undecided"; out["reason"] = "; ".join(fl)[:600]; return
    out["status"] = "failed"; out["failed"] = [f"{b}" for b in bad]; out["why"] = fl[:6]; out["log"] = o[-6000:]

class Search:
    def __init__(self, prop, bin_, work, seed, tier, known):
        self.prop, self.bin, self.work, self.seed, self.tier, self.known = prop, bin_, work, seed, tier, known
        self.status = "none"; self.reason = ""; self.stats = {}; self.replay = os.path.join(ROOT, "replays", f"{prop}.txt"); self.secs = 0
    def build(self):
        env = dict(ENV); env["RUSTFLAGS"] = "--cfg cathlamet_verif -Awarnings"
        rc, o, e, s = sh(["cargo", "build", "--offline", "--bin", self.bin], 700, cwd=os.path.join(ROOT, "harness"), env=env)
        self.secs += s
        if rc != 0: self.status = "unavailable"; self.reason = "harness does not build: " + e[-1500:]; return False
        return True
    def run(self, budget, seed=None):
        seed = self.seed if seed is None else seed
        exe = os.path.join(ROOT, "harness/target/debug", self.bin)
        st = os.path.join(self.work, "search.json"); kf = os.path.join(self.work, "known.txt")
        open(kf, "w").write("\n".join(self.known))
        if os.path.exists(st): os.remove(st)
        base = [exe, "--seed", str(seed), "--budget", str(budget), "--replay", self.replay, "--stats", st, "--known", kf]
        if self.tier == "thorough": base.append("--thorough")
        lim = budget + 60
        pre = ["prlimit", "--as=12000000000", "--cpu=%d" % (lim + 30)]
        rc, o, e, s = sh(pre + base, lim + 120, cwd=self.work)
        self.secs += s
        if os.path.exists(st):
            try:
                new = json.load(open(st))
                for k in ("evaluations", "distinct_nontrivial"): new[k] += self.stats.get(k, 0)
                new["known_hit"] = sorted(set(new["known_hit"]) | set(self.stats.get("known_hit", [])))
                self.stats = new
            except ValueError: pass
        if rc == 0: self.status = "clean"; return
        if rc == 10: self.status = "violation"; return
        # the process died or hung: run again, noting every case before it runs
        tr = os.path.join(self.work, "trace.txt")
        if os.path.exists(tr): os.remove(tr)
        rc2, o2, e2, s2 = sh(pre + base + ["--trace", tr], lim + 300, cwd=self.work)
        if rc2 == 10: self.status = "violation"; return
        if rc2 == 0: self.status = "undecided"; self.reason = f"search ended with {rc} once, not reproduced"; return
        case = open(tr).read() if os.path.exists(tr) else ""
        if not case: self.status = "unavailable"; self.reason = f"search ended with {rc}: {e[-500:]}"; return
        self.status = "violation"
        open(self.replay, "w").write(f"property: {self.prop}\nseed: {seed}\ninput: {case}fails: the program {'does not terminate' if rc2 == -999 or rc2 in (-24, 137, 152) else 'dies'} on this input (exit {rc2})\n{e2[-1500:]}\n")

def known_findings(prop):
    f = os.path.join(ROOT, "known_findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=`([^`]*)` (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]; P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    t0 = time.time()
    work = os.path.join(ROOT, "work", prop); os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rc, o, e, _ = sh(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(ROOT, "tools/vx"))
    vx_ok = rc == 0
    kf = known_findings(prop)
    search = Search(prop, prop.lower(), work, seed, tier, [m for m, _ in kf]) if P.get("search", True) else None
    budget = P.get("budget", 25) if tier == "quick" else P.get("thorough_budget", 420)
    vs = [Verus(u[0], v, work, tier, u[2] if len(u) > 2 else None) for u in P.get("units", []) for v in u[1]]
    for v in vs: v.search = search
    kout = {}
    threads = []
    def do_search():
        if search.build(): search.run(budget)
    if search: threads.append(threading.Thread(target=do_search))
    if vx_ok:
        for v in vs: threads.append(threading.Thread(target=v.run))
    if P.get("kani"): threads.append(threading.Thread(target=kani, args=(work, P["kani"], kout)))
    for t in threads: t.start()
    for t in threads: t.join()
    if not vx_ok:
        for v in vs: v.reason = "vx does not build"
    failed = [v for v in vs if v.status == "failed"]
    undec = [v for v in vs if v.status == "undecided"]
    kfail = kout.get("status") == "failed"; kund = P.get("kani") and kout.get("status") != "proved" and not kfail
    # a proof that fails: look harder for an input
    if search and search.status == "clean" and (failed or kfail or undec):
        for s in (seed + 1000, seed + 2000):
            if search.status == "clean": search.run(min(90, budget * 3), s)
    obl = sum(v.obl for v in vs) + kout.get("checks", 0); disch = sum(v.disch if v.status == "proved" else min(v.disch, v.obl) for v in vs) + (kout.get("checks", 0) if kout.get("status") == "proved" else 0)
    for v in vs:
        print(f"verus unit {v.unit}/{v.variant}: {v.status}, {v.disch} of {v.obl} obligations discharged, {v.secs:.1f} s" + (f" -- {v.reason}" if v.reason and v.status != "proved" else ""))
        for r in v.failed: print(f"   failed obligation: {r['obligation']} in {r['in']}: {r['at'][:160]}")
        if v.vacuous: print(f"   WARNING unreachable under its precondition: {v.vacuous}")
    if P.get("kani"): print(f"kani: {kout.get('status')} {kout.get('ok', 0)} of {kout.get('total', 0)} harnesses, {kout.get('secs', 0):.1f} s {kout.get('failed', '')} {kout.get('reason', '')[:300]}")
    if search: print(f"search: {search.status}, {search.stats.get('evaluations', 0)} evaluations, {search.secs:.1f} s {search.reason[:300]}")
    for m, d in kf: print(f"KNOWN-FINDING: property={prop} {d}")
    violation = None
    if search and search.status == "violation":
        violation = f"VIOLATION property={prop} replay={os.path.relpath(search.replay, ROOT)}"
    elif failed or kfail:
        rp = os.path.join(ROOT, "replays", f"{prop}.txt")
        with open(rp, "w") as f:
            f.write(f"property: {prop}\nNo failing input was found; these obligations, discharged on the unchanged code, now fail:\n")
            for v in failed:
                for r in v.failed: f.write(f"\n[{v.unit}/{v.variant}] {r['obligation']} in {r['in']}\n{r['rendered']}\n")
            if kfail: f.write("\nkani: " + ", ".join(kout["failed"]) + "\n" + "\n".join(kout["why"]) + "\n" + kout.get("log", ""))
        violation = f"VIOLATION property={prop} replay={os.path.relpath(rp, ROOT)} no-failing-input-found"
    und = [f"{v.unit}/{v.variant}: {v.reason}" for v in undec] + ([f"kani: {kout.get('reason','')}"] if kund else []) + [f"{v.unit}/{v.variant}: unreachable {v.vacuous}" for v in vs if v.vacuous]
    if und and not violation: print("UNDECIDED (not counted as proved; the search above stands in, bounded): " + " | ".join(und)[:2000])
    fns = [f"{f['file']} {f['fn']}" for v in vs for f in v.meta.get("functions", [])]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"),
      "coverage": {
        "obligations": obl, "discharged": disch,
        "checker_cmd": "verus <generated>.rs --rlimit 20 (Z3 back end), sources regenerated from /repo/src by tools/vx" + ("; cargo kani (CBMC back end)" if P.get("kani") else ""),
        "trusted_base": sorted(set(x for v in vs for x in v.trusted)) + P.get("trusted", []),
        "functions_under_contract": sorted(set(fns)),
        "units": [{"unit": v.unit, "variant": v.variant, "status": v.status, "obligations": v.obl, "discharged": v.disch, "back_end": "Verus/Z3", "verifier_s": round(v.secs, 2), "smt_s": round(v.smt, 2), "functions": len(v.meta.get("functions", [])), "entry_reached_probes": v.probed, "vacuous": v.vacuous, "entry_probe_out_of_resources": v.tired, "rewrites": v.meta.get("rewrites", {}), "inlined": v.meta.get("inlined", []), "warnings": v.meta.get("warnings", []), "failed": [{k: r[k] for k in ("obligation", "in", "at")} for r in v.failed], "reason": v.reason if v.status != "proved" else ""} for v in vs],
        "not_under_contract": sorted(set(x for v in vs for x in v.meta.get("not_extracted", [])))[:80],
        "undecided": und,
        "bounded_stand_ins": P.get("bounded", []),
      },
      "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if P.get("kani"): ev["coverage"]["kani"] = {k: kout.get(k) for k in ("status", "ok", "total", "checks", "secs")}
    if search:
        ev["coverage"]["evaluations"] = search.stats.get("evaluations", 0); ev["coverage"]["distinct_nontrivial"] = search.stats.get("distinct_nontrivial", 0)
        ev["coverage"]["rule"] = P.get("rule", "executable contracts on the real crate, small cases exhaustively then seeded random"); ev["coverage"]["samples"] = search.stats.get("samples", [])
        ev["coverage"]["search_status"] = search.status
    if P.get("level") == "other" : ev["coverage"]["explanation"] = P.get("explanation", "")
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    if violation: print(violation); sys.exit(1)
    print(f"OK property={prop}" + ("" if not und else " (undecided in part)"))
    sys.exit(0)

def guarded():
    try: main()
    except SystemExit: raise
    except BaseException as ex:
        import traceback; traceback.print_exc()
        # an error of the machinery is neither a violation nor a proof; say so and write evidence
        prop = sys.argv[1]
        json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": {"explanation": "the check itself failed: " + repr(ex)}, "wall_s": 0.0}, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"))
        sys.exit(2)
guarded()
