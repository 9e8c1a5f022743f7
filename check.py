#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property of /repo's current tree.

1. gover (a deductive verifier for Go built in /verif/gover) regenerates the
   proof obligations of every function under contract for PROP from /repo's
   source and hands them to the SMT solvers.
2. The harness (/verif/harness) links /repo's packages and compares them with a
   reference model: it replays and falsifies, and it is the labelled-bounded
   stand-in for what is not under contract.

Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import json, os, subprocess, sys, tempfile, time, shutil, threading, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin"

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    if os.path.isdir(GO):
        e["PATH"] = GO + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
    return e

def build(tmp, env, race):
    """Builds gover, the harness and aminoscan from copies, so that nothing in /verif or /repo changes."""
    log, jobs = {}, []
    def job(name, src, args, cwd=None):
        def run():
            d = cwd
            if src:
                d = os.path.join(tmp, "src-" + name)
                shutil.copytree(os.path.join(HERE, src), d)
                if src == "harness" and REPO != "/repo":
                    p = os.path.join(d, "go.mod")
                    s = open(p).read().replace("=> /repo", "=> " + REPO)
                    open(p, "w").write(s)
            r = subprocess.run(["go", "build", "-o", os.path.join(tmp, name)] + args, cwd=d, env=env, capture_output=True, text=True)
            if r.returncode:
                log[name] = r.stdout + r.stderr
        t = threading.Thread(target=run); t.start(); jobs.append(t)
    job("gover", "gover", ["."])
    job("vh", "harness", (["-race"] if race else []) + ["."])
    # -modfile keeps go from touching /repo's go.mod and go.sum
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(tmp, "repo." + f[3:]))
    job("aminoscan", None, ["-modfile", os.path.join(tmp, "repo.mod"), "./cmd/aminoscan"], REPO)
    for t in jobs: t.join()
    return log

def run(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -9, o, e

def relevant(o, prop):
    ls = o.get("labels") or []
    props = [l.split(":")[0] for l in ls if ":" in l]
    return not props or prop in props

def gover(tmp, env, prop, scale, funcs=None, timeout=300):
    out = os.path.join(tmp, "gover.json")
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(tmp, "gover"), "-repo", REPO, "-spec", os.path.join(HERE, "contracts"), "-prop", prop, "-json", out, "-scale", str(scale), "-procs", "6", "-par", "2"]
    if funcs: cmd += ["-houdini", "-func", ",".join(funcs)]
    rc, o, e = run(cmd, env, timeout)
    try:
        return json.load(open(out)) or [], o + e
    except Exception:
        return [{"key": "gover", "err": "the verifier did not finish (%s): %s" % (rc, (o + e)[-2000:]), "obls": []}], o + e

def bad(f, prop):
    obls = [o for o in (f.get("obls") or []) if o["res"] != "proved" and relevant(o, prop)]
    return obls, f.get("err") or ""

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    e = env()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, e, tmp, rdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def findings(prop):
    known = {}
    for l in open(os.path.join(HERE, "known-findings")):
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            w = l.split(None, 3)
            known[w[2].split("=", 1)[1]] = w[3]
    return known

def check(prop, tier, seed, e, tmp, rdir, t0):
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = [c for c in manifest["checks"] if c["property"] == prop][0]
    race = prop == "C17"
    log = build(tmp, e, race)
    if log:
        for n, s in log.items(): print("build of %s failed:\n%s" % (n, s))
        if "vh" in log and "gover" in log:
            print("ERROR property=%s: /repo does not build with the harness" % prop)
            return 2
    lines, violations = [], []
    thorough = tier == "thorough"

    # 1. proofs
    outs, failed = [], []
    tg = time.time()
    again = []
    def failing(outs):
        failed[:] = [(f, *bad(f, prop)) for f in outs if any(bad(f, prop))]
    if "gover" not in log:
        outs, text = gover(tmp, e, prop, 3 if thorough else 1)
        again = [f["key"] for f in outs if any(bad(f, prop))]
        failing(outs)
    tg = time.time() - tg

    # 2. bounded falsifier
    res, rc = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": [], "known": {}}, 0
    th = time.time()
    def harness(scale, budget, seed):
        args = [os.path.join(tmp, "vh"), "-prop", prop, "-seed", str(seed), "-scale", str(scale), "-budget", "%ds" % budget, "-tmp", tmp, "-aminoscan", os.path.join(tmp, "aminoscan")]
        rc, o, er = run(args, e, budget + 90)
        try: return json.loads(o), rc
        except Exception:
            return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": [{"property": prop, "check": "harness", "seed": seed, "index": 0, "message": "the harness died (%s)" % rc, "stack": (o + er)[-6000:], "input": []}], "known": {}}, rc
    if "vh" not in log:
        res, rc = harness(100 if thorough else 15, 500 if thorough else 45, seed)
        if again and not res["violations"] and outs[0]["key"] not in ("gover", "load"):
            # a busy machine can make solvers run out of time: retry with
            # more, and with whichever of the loop invariants are inductive
            o2, _ = gover(tmp, e, prop, 2, again, 200)
            by = {f["key"]: f for f in o2}
            outs = [by.get(f["key"], f) for f in outs]
            failing(outs)
        if failed and not res["violations"]:
            r2, _ = harness(20, 120, seed + 1000)
            for k in ("evaluations", "distinct_nontrivial"): res[k] += r2[k]
            res["violations"] = r2["violations"]
    th = time.time() - th

    # 3. verdict
    os.makedirs(rdir, exist_ok=True)
    n = 0
    for v in (res["violations"] or [])[:8]:
        p = os.path.join(rdir, "input%d.json" % n); n += 1
        v["replay"] = "replay.sh %s" % os.path.relpath(p, HERE)
        v["failed_obligations"] = [f["key"] + ": " + (err or obls[0]["name"]) for f, obls, err in failed]
        json.dump(v, open(p, "w"), indent=1)
        print("# %s: %s" % (v["check"], v["message"][:600]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    known = findings(prop)
    for k, m in sorted((res.get("known") or {}).items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, m))
        else:
            p = os.path.join(rdir, "input%d.json" % n); n += 1
            json.dump({"property": prop, "check": "known findings", "seed": seed, "index": 0, "finding": k, "message": m}, open(p, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    for i, (f, obls, err) in enumerate(failed):
        p = os.path.join(rdir, "obligation%d.json" % i)
        json.dump({"property": prop, "function": f["key"], "error": err,
                   "failed_obligations": [{k: o.get(k) for k in ("name", "kind", "labels", "pos", "res", "time", "trace")} for o in obls],
                   "verifier_output": obls[0].get("script", "")[-20000:] if obls else err,
                   "rerun": "gover -repo /repo -spec /verif/contracts -func '%s'" % f["key"]}, open(p, "w"), indent=1)
        for o in obls[:6]:
            print("# undischarged: %s: %s (%s) %s" % (f["key"], o["name"], o.get("pos", ""), o["res"]))
        if err: print("# %s: %s" % (f["key"], err[:600]))
        if not lines:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))

    # 4. evidence
    obls = [(f, o) for f in outs for o in (f.get("obls") or []) if relevant(o, prop)]
    by = {}
    for f, o in obls:
        if o["res"] == "proved": by[o.get("solver") or "trivial"] = by.get(o.get("solver") or "trivial", 0) + 1
    assumed = sorted({a for f in outs for a in (f.get("assumed") or [])})
    used = sorted({a for f in outs for a in (f.get("used") or [])})
    mine = {f["key"] for f in outs}
    cov = {
        "obligations": len(obls),
        "discharged": sum(o["res"] == "proved" for f, o in obls),
        "checker_cmd": "gover -repo /repo -spec /verif/contracts -prop %s (z3 4.8.12, newer z3, cvc5 1.1.2)" % prop,
        "trusted_base": ["gover (VC generator, /verif/gover)", "golang.org/x/tools/go/ssa", "z3/cvc5", "contracts of external functions: " + ", ".join(a for a in assumed)],
        "functions_under_contract": sorted(mine),
        "inlined_repo_functions": sorted({a for f in outs for a in (f.get("inlined") or [])}),
        "callee_contracts_used": [u for u in used if u not in assumed],
        "discharged_by": by,
        "solver_seconds": round(sum(o.get("time", 0) for f, o in obls), 2),
        "obligations_by_function": {f["key"]: len([1 for o in (f.get("obls") or []) if relevant(o, prop)]) for f in outs},
        "bounded": "the following counts are the bounded stand-in and falsifier, not counted as proved",
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": "generated types, values, byte strings and histories compared with a reference model; distinct by (check, type, value or input), trivial ones carry no key",
        "samples": res["samples"] or [],
        "per_check": res.get("per_check", {}),
        "verifier_wall_s": round(tg, 1), "harness_wall_s": round(th, 1),
        "known_findings": sorted((res.get("known") or {})),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": entry["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(lines),
          "assumptions": ["assumed contract: " + a for a in assumed] + [
              "integers are mathematical with explicit wrap-around at their machine width; len and cap are at most 2^50; loops run fewer than 2^62 iterations",
              "append and make succeed (no memory exhaustion); goroutines other than the verified one do not write memory it reads except as the lock contracts say",
              entry["level_note"]]}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations over %d functions, %d evaluations (%d distinct), %.0f s" % (prop, tier, cov["discharged"], cov["obligations"], len(outs), res["evaluations"], res["distinct_nontrivial"], time.time() - t0))
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == "__main__":
    sys.exit(main())
