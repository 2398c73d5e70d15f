#!/usr/bin/env python3
"""Decide one property:  check.py <property id> [--tier quick|thorough]

1. proof      the functions the property depends on are extracted from /repo/src (tools/vx.py), woven with the
              contracts of verus/units/*.vrs and every obligation is discharged by Verus (z3).
2. vacuity    the same units with `assert(false)` at the entry of every contracted function: each has to fail.
3. search     the harness (linked against /repo) looks for a concrete input that breaks the property: the replay of a
              failed obligation, and the bounded stand-in for the glue the verifier cannot reach.
"""
import sys, os, re, json, time, subprocess, shutil, concurrent.futures as cf, signal, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx
from props import PROPS, ALARM, COMMON_ASSUMPTIONS

REPO = os.environ.get("FORUST_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
BASE = os.path.join(VERIF, "verus", "baseline.json")


def log(*a):
    print("[check]", *a, flush=True)


# ------------------------------------------------------------------ verifier
def run_verus(path, extra=(), timeout=240, errors="4"):
    cmd = ["verus", os.path.basename(path), "--triggers-mode", "silent", "--output-json", "--time-expanded",
           "--multiple-errors", errors, "--num-threads", "4", *extra]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "cmd": " ".join(cmd), "wall": time.time() - t0, "stderr": "", "funcs": {}, "verified": 0, "errors": 0, "smt_ms": 0}
    r = {"cmd": " ".join(cmd), "wall": time.time() - t0, "stderr": err, "funcs": {}, "verified": 0, "errors": 0, "smt_ms": 0}
    try:
        d = json.loads(out[out.index("{"):])
        v = d["verification-results"]
    except Exception:
        r["status"] = "tool-error"
        return r
    r["verified"], r["errors"] = v.get("verified", 0), v.get("errors", 0)
    for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            o = r["funcs"].setdefault(f["function"], {"ok": True, "ms": 0, "mode": f.get("mode:", "")})
            o["ok"] = o["ok"] and f["success"]
            o["ms"] += f["time-micros"] / 1000
    r["smt_ms"] = sum(f["ms"] for f in r["funcs"].values())
    if v.get("success") and r["verified"] > 0:
        r["status"] = "ok"
    elif v.get("encountered-vir-error") or r["verified"] + r["errors"] == 0:
        r["status"] = "unsupported"
    elif r["errors"] > 0:
        r["status"] = "failed"
    else:
        r["status"] = "tool-error"
    return r


def diag(stderr, spans):
    """[(function, message, line)] of the verification errors"""
    out = []
    for blk in re.split(r"\n(?=error|warning|note)", "\n" + stderr):
        m = re.match(r"\s*error(?:\[\w+\])?: (.*)", blk)
        if not m or m.group(1).startswith("aborting"):
            continue
        l = re.search(r"--> [^\s:]+:(\d+):\d+", blk)
        line = int(l.group(1)) if l else 0
        # the innermost function that contains any line the diagnostic mentions
        fn = None
        for a, b, q in spans:
            if a <= line <= b:
                fn = q
        mark = re.search(r"\n\s*(\d+)\s*\|(.*)\n[\s|/\\_]*\^", blk)
        out.append({"function": fn, "message": m.group(1).strip(), "line": line, "text": (mark.group(2).strip() if mark else "")[:200]})
    return out


def prove_unit(unit, workdir, tier):
    res = {"unit": unit, "status": "", "functions": [], "failed": [], "reason": ""}
    path = os.path.join(VERIF, "verus", "units", unit + ".vrs")
    try:
        text, w, spans = vx.weave(path)
    except vx.Anchor as e:
        res.update(status="anchor", reason=str(e))
        return res
    except Exception as e:
        res.update(status="anchor", reason=f"extraction failed: {e!r}")
        return res
    res["rewrites"] = sorted(w.log)
    res["fp"] = w.fp
    out = os.path.join(workdir, unit + ".rs")
    open(out, "w").write(text)
    r = run_verus(out)
    if r["status"] == "failed":
        # flaky query or real failure: one retry with a larger resource limit
        r2 = run_verus(out, ("--rlimit", "60"))
        if r2["status"] in ("ok", "failed"):
            r = r2
    res["run"] = r
    res["status"] = r["status"]
    res["functions"] = [q for _, _, q in spans]
    res["trusted"] = trusted(text)
    res["assumed"] = sorted(set(w.assumed))
    res["assumed_lemmas"] = w.assumed_lemmas
    res["lemmas"] = sorted(set(re.findall(r"(?m)^\s*(?:pub )?(?:broadcast )?proof fn (\w+)", text)) - set(w.assumed_lemmas))
    if r["status"] == "failed":
        ds = diag(r["stderr"], spans)
        rl = [d for d in ds if re.search(r"rlimit|Resource limit|timed out", d["message"])]
        res["failed"] = [d for d in ds if d not in rl and not d["message"].startswith("could not")]
        if not res["failed"]:
            res.update(status="rlimit", reason="solver resource limit: " + "; ".join(str(d["function"]) for d in rl))
    elif r["status"] != "ok":
        m = re.findall(r"^error(?:\[\w+\])?: (.*)$", r["stderr"], re.M)
        res["reason"] = r["status"] + ": " + "; ".join(m[:4])
    else:
        # vacuity: the same file, every contracted function asserts false on entry, each has to fail
        vtext, vw, vspans = vx.weave(path, vacuity=True)
        vp = os.path.join(workdir, unit + "_vac.rs")
        open(vp, "w").write(vtext)
        v = run_verus(vp, ("--rlimit", "4"), errors="0")
        bad = vacuous(v, vspans, w.vac)
        res["vacuity"] = {"checked": len(w.vac), "reachable": len(w.vac) - len(bad), "status": v["status"]}
        if v["status"] == "failed" and bad:
            res["vacuous"] = bad
    return res


def vacuous(v, spans, names):
    hit = {d["function"] for d in diag(v["stderr"], spans)}
    return [n for n in names if n not in hit]


def trusted(text):
    t = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body ]" in l:
            continue
        if "external_body" in l or "assume_specification" in l or re.search(r"\baxiom fn\b", l) or re.search(r"\b(assume|admit)\(", l):
            ctx = " ".join(x.strip() for x in lines[i:i + 3])
            m = re.search(r"(?:fn|struct)\s+(\w+)", ctx)
            t.append((m.group(1) if m else ctx[:60]))
    return sorted(set(t) - {"vx_diverge"})


# ------------------------------------------------------------------ harness
def build_harness():
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg forust_verif"
    env["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        d = os.path.join(WORK, "harness_alt")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
        c = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(d, "Cargo.toml"), "w").write(c)
        src = d
        env["CARGO_TARGET_DIR"] = os.path.join(WORK, "target_alt")
    # the part that implements the Splitter trait is left out when the trait itself has changed
    for extra in ([], ["--no-default-features"]):
        p = subprocess.run(["cargo", "build", "--release", "--offline", "-q", *extra], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    b = os.path.join(env["CARGO_TARGET_DIR"], "release", "harness")
    if p.returncode != 0:
        return None, p.stdout
    return b, ""


def search(binary, pid, seed, secs, procs, workdir):
    """run the falsifier; returns (cases, failing replay path or None, note)"""
    ps = []
    for k in range(procs):
        s = seed * 1000 + k
        rp = os.path.join(workdir, f"{pid}_{s}.json")
        env = dict(os.environ)
        env["RAYON_NUM_THREADS"] = "2"
        ps.append((s, rp, subprocess.Popen([binary, pid, str(s), "1000000000", str(secs), rp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)))
    cases, distinct, fail, note = 0, 0, None, []
    deadline = time.time() + secs + 200
    for s, rp, p in ps:
        try:
            out, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            note.append(f"seed {s}: harness killed at the time limit")
            continue
        last = (out.strip().split("\n") or [""])[-1]
        if p.returncode == 0:
            m = re.search(r"cases (\d+)", last)
            cases += int(m.group(1)) if m else 0
            m = re.search(r"distinct (\d+)", last)
            distinct += int(m.group(1)) if m else 0
        elif p.returncode == 1 and os.path.exists(rp):
            fail = fail or (rp, last[:600])
        elif p.returncode in (-signal.SIGSEGV, -signal.SIGABRT):
            c = int.from_bytes(open(rp + ".cur", "rb").read(8), "little") if os.path.exists(rp + ".cur") else -1
            json.dump({"property": pid, "kind": "failing-input", "seed": s, "case": c, "what": f"the process aborted (signal {-p.returncode}) on valid input",
                       "replay": f"harness {pid} {s} 1 600 /dev/null {c}"}, open(rp, "w"))
            fail = fail or (rp, f"aborted with signal {-p.returncode} in case {c}")
        else:
            note.append(f"seed {s}: harness ended with {p.returncode}")
    return cases, distinct, fail, note


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=f"{pid}_", dir=WORK)
    replay_dir = os.path.join(VERIF, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    try:
        return decide(pid, tier, seed, P, t0, workdir, replay_dir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def decide(pid, tier, seed, P, t0, workdir, replay_dir):
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    secs = P.get("secs", 20) if tier == "quick" else P.get("tsecs", 300)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        hb = ex.submit(build_harness)
        units = [ex.submit(prove_unit, u, workdir, tier) for u in P["units"]]
        binary, berr = hb.result()
        ures = [u.result() for u in units]
    if binary is None:
        log("harness does not build against this tree:", berr[-1500:])
    ok_units = [u for u in ures if u["status"] == "ok"]
    for u in ures:
        log(f"unit {u['unit']}: {u['status']}", f"{u.get('run', {}).get('verified', 0)} obligations discharged" if u["status"] == "ok" else u.get("reason", "") + " ".join(f"{d['function']}: {d['message']}" for d in u["failed"][:4]))
    vac = [(u["unit"], u["vacuous"]) for u in ures if u.get("vacuous")]
    proved = len(ures) > 0 and len(ok_units) == len(ures) and not vac
    # when the proof does not go through, search deeper
    budget = secs if proved else max(secs, 90 if tier == "quick" else 420)
    cases, distinct, fail, notes = (0, 0, None, [])
    if binary:
        cases, distinct, fail, notes = search(binary, pid, seed, budget, 6, workdir)
        log(f"search: {cases} cases", "FAIL " + fail[1] if fail else "no failing input")
    violations, lines = 0, []
    if fail:
        rp = os.path.join(replay_dir, f"{pid}.json")
        d = json.load(open(fail[0]))
        d["obligations"] = [x for u in ures for x in u["failed"]]
        json.dump(d, open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp}")
        violations = 1
    else:
        # obligations that were discharged on the accepted tree and fail now
        bad, inconclusive = [], []
        for u in ures:
            for d in u["failed"]:
                q = d["function"]
                if not alarming(pid, P, u["unit"], q):
                    inconclusive.append({**d, "unit": u["unit"], "why": "a contract this property builds on"})
                elif q in u.get("fp", {}) and structural(base.get(q), u["fp"][q]) is None:
                    bad.append({**d, "unit": u["unit"]})
                else:
                    inconclusive.append({**d, "unit": u["unit"], "why": structural(base.get(q), u.get("fp", {}).get(q)) or "not a contracted function"})
        if bad:
            rp = os.path.join(replay_dir, f"{pid}.json")
            json.dump({"property": pid, "kind": "failed-obligation", "obligations": bad,
                       "verifier_output": "\n".join(u["run"]["stderr"] for u in ures if u["failed"])[-20000:],
                       "checker_cmd": [u["run"]["cmd"] for u in ures if u["failed"]]}, open(rp, "w"), indent=1)
            lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
            violations = 1
        for d in inconclusive:
            notes.append(f"undecided obligation in {d['function']} (unit {d['unit']}): {d['message']} [{d['why']}]")
    for u in ures:
        if u["status"] not in ("ok", "failed"):
            notes.append(f"unit {u['unit']} undecided ({u['status']}): {u['reason']}")
    for un, v in vac:
        notes.append(f"unit {un}: unreachable entry (vacuous contract) in {v}")
    smt = sum(u.get("run", {}).get("smt_ms", 0) for u in ures) / 1000
    nv = sum(u.get("run", {}).get("verified", 0) for u in ures)
    ne = sum(u.get("run", {}).get("errors", 0) for u in ures)
    funcs = sorted({q for u in ures for q in u["functions"]})
    level = "proof" if proved else "exploration"
    trust = sorted({t for u in ures for t in u.get("trusted", [])})
    done = {q for u in ok_units for q in u["functions"]} | {q for u in ok_units for q in u["lemmas"]}
    used = {q for u in ures for q in u.get("assumed", []) + u.get("assumed_lemmas", [])}
    trust += sorted("not proved by this check: " + q for q in used - done)
    cov = {
        "obligations": nv + ne, "discharged": nv,
        "checker_cmd": "; ".join(u["run"]["cmd"] for u in ures if u.get("run")) + "   (input woven by tools/vx.py from /repo/src)",
        "trusted_base": trust,
        "backend": "verus 0.2026.09.13 / z3", "solver_s": round(smt, 2),
        "functions_under_contract": funcs,
        "obligations_per_unit": {u["unit"]: {"status": u["status"], "verified": u.get("run", {}).get("verified", 0), "errors": u.get("run", {}).get("errors", 0), "vacuity": u.get("vacuity")} for u in ures},
        "contracts_used_across_units": sorted(used & done),
        "extraction_rewrites": sorted({r for u in ures for r in u.get("rewrites", [])}),
        "undecided": notes,
    }
    rule = "pseudo-random scenarios (harness/src/props.rs) from (seed, case); a case counts as distinct when the hash of its recorded input is new and the input is not empty. Checked: " + P.get("bounded", "")
    samples = [f"harness {pid} {seed * 1000} 1 600 /dev/null {c}" for c in (0, 1)]
    if proved:
        cov["bounded_stand_in"] = {"label": "bounded, not counted as proved", "cases": cases, "distinct": distinct, "seconds": budget, "rule": rule, "samples": samples}
    else:
        cov.update({"evaluations": cases, "distinct_nontrivial": distinct, "rule": rule, "samples": samples})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": COMMON_ASSUMPTIONS + P.get("assume", []) + (["NOT PROVED on this tree: the result is bounded to the cases searched"] if not proved else []),
          "violations": violations}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        log("note:", n)
    for l in known(pid):
        print("KNOWN-FINDING: " + l, flush=True)
    for l in lines:
        print(l, flush=True)
    if not lines:
        if binary is None and not proved:
            log("neither the proof nor the search could be run on this tree")
            return 2
        log(f"{pid}: {'proved' if proved else 'held on everything searched (bounded, not proved)'}; {nv} obligations, {cases} cases, {time.time() - t0:.1f}s")
    return 1 if lines else 0


def known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={pid} "):
                out.append(l[len("finding: "):].strip())
    return out


def alarming(pid, P, unit, q):
    """is a failed obligation of function q a violation of this property? an entry names a unit, or unit:function"""
    for a in ALARM.get(pid, P["units"]):
        un, _, fn = a.partition(":")
        if un == unit and (not fn or q.split("::")[-1].strip() == fn):
            return True
    return False


def structural(b, n):
    """None if function n differs from the accepted text b only inside straight-line code: a failed obligation is then a
    statement about behaviour; otherwise why the proof has to be redone by hand."""
    if b is None or n is None:
        return "no accepted text"
    if b["hash"] == n["hash"]:
        return "the function itself is unchanged"
    if b["loops"] != n["loops"]:
        return "its loops were rewritten"
    if set(n["calls"]) - set(b["calls"]):
        return "it calls something new: " + ", ".join(sorted(set(n["calls"]) - set(b["calls"])))
    return None


def baseline():
    fp = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "verus", "units"))):
        if f.endswith(".vrs"):
            _, w, _ = vx.weave(os.path.join(VERIF, "verus", "units", f))
            fp.update(w.fp)
    json.dump(fp, open(BASE, "w"), indent=0, sort_keys=True)
    print(len(fp), "functions")


if __name__ == "__main__":
    if sys.argv[1] == "--baseline":
        baseline()
    else:
        sys.exit(main())
