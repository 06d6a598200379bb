#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. builds gover (the deductive verifier in /verif/gover) and lets it generate and discharge, from /repo's current
   source, every obligation of the contracts tagged with the property and of all contracts those rely on;
2. runs the property's drivers (in-package Go tests laid over /repo): they replay refuted obligations against the real
   code, stand in (bounded) for functions out of the verifier's reach, and check assumed facts on samples;
3. rewrites evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit status: 0 or 1."""
import json, os, re, subprocess, sys, tempfile, time, shutil, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = os.environ.get("VERIF_SEED", "1")
T0 = time.time()
MOD = "github.com/PlatONnetwork/tecdsa"

def goenv():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env"], capture_output=True, text=True).stdout
        for l in out.splitlines():
            k, _, v = l.partition("=")
            if k.startswith("GO") or k in ("PATH", "HOME", "CGO_ENABLED", "LANG"):
                e[k] = v
    except OSError:
        pass
    e["VERIF_SEED"], e["VERIF_TIER"] = SEED, TIER
    return e

ENV = goenv()
SCRATCH = tempfile.mkdtemp(prefix="verif_%s_" % PID)

def run(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda s: s.decode("utf8", "replace") if isinstance(s, bytes) else (s or "")
        return 124, d(x.stdout), d(x.stderr)

def prover():
    g = os.path.join(SCRATCH, "gover")
    rc, o, e = run(["go", "build", "-o", g, "."], os.path.join(V, "gover"), 300)
    if rc != 0:
        return None, "gover does not build:\n" + o + e
    out = os.path.join(SCRATCH, "gover.json")
    cmd = [g, "-repo", REPO, "-specs", os.path.join(V, "specs"), "-prop", PID, "-out", out]
    if TIER == "thorough":
        cmd.append("-thorough")
    rc, o, e = run(cmd, V, 600)
    if not os.path.exists(out):
        return None, "gover gave no result (exit %d):\n%s%s" % (rc, o[-4000:], e[-4000:])
    return json.load(open(out)), o + e

def drivers():
    """Runs the property's drivers. Returns (list of per-package results)."""
    ov = {"Replace": {}}
    pkgs = {}
    for f in sorted(glob.glob(os.path.join(V, "drivers", "*", "*.go"))):
        d = os.path.basename(os.path.dirname(f))
        if d == "vx":
            ov["Replace"][os.path.join(REPO, "verifx", os.path.basename(f))] = f
            continue
        ov["Replace"][os.path.join(REPO, d, os.path.basename(f))] = f
        names = re.findall(r"^func (TestVerif_%s_\w+)\(" % PID, open(f).read(), re.M)
        if names:
            pkgs.setdefault(d, []).extend(names)
    ovf = os.path.join(SCRATCH, "overlay.json")
    json.dump(ov, open(ovf, "w"))
    res = []
    for d, names in pkgs.items():
        rc, o, e = run(["go", "test", "-vet=off", "-count=1", "-timeout", "200s" if TIER == "quick" else "600s", "-overlay", ovf,
                        "-run", "^TestVerif_%s_" % PID, "-v", "./" + d], REPO, 700)
        txt = o + "\n" + e
        r = {"package": d, "tests": names, "rc": rc, "fails": [], "counts": [], "output": txt}
        for l in txt.splitlines():
            i = l.find("VFAIL ")
            if i >= 0:
                r["fails"].append(l[i + 6:])
            i = l.find("VCOUNT ")
            if i >= 0:
                try:
                    r["counts"].append(json.loads(l[i + 7:]))
                except ValueError:
                    pass
        if rc != 0 and not r["fails"]:
            if "[build failed]" in txt or "[setup failed]" in txt or "=== RUN" not in txt:
                r["nobuild"] = True
            else:
                r["fails"].append("driver failed: " + txt[-3000:])
        res.append(r)
    return res

def main():
    lvl = "proof"
    res, log = prover()
    drv = drivers()
    viol = []
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = []
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == PID:
                known.append((m.group(2), m.group(3).strip()))
    obls = disch = 0
    backends, secs, fns, trusted, assumed, failed = {}, 0.0, [], [], set(), []
    if res is not None:
        for f in res["functions"] or []:
            obls += f["obligations"]
            secs += f["solver_seconds"]
            for k, n in f["back_ends"].items():
                backends[k] = backends.get(k, 0) + n
                disch += n
            fns.append("%s: %s, %d obligations" % (f["function"], f["status"], f["obligations"]))
            assumed.update(f.get("assumed") or [])
            if f["status"] != "proved":
                failed.append(f)
        trusted = ["%s: %s" % (k, w) for k, w in sorted((res.get("trusted_contracts") or {}).items())]
        for m in res.get("mutable_globals") or []:
            failed.append({"function": "package variables", "status": "failed", "error": str(m)})
        if not res["functions"]:
            failed.append({"function": "(none)", "status": "error", "error": "no function under contract for this property"})
    else:
        failed.append({"function": "(verifier)", "status": "error", "error": log})
    concrete = [(r["package"], f) for r in drv for f in r["fails"]]
    shown = []
    def is_known(text):
        for pat, what in known:
            if pat in text:
                if what not in shown:
                    shown.append(what)
                    print("KNOWN-FINDING: property=%s %s" % (PID, what))
                return True
        return False
    def wr(n, text):
        p = os.path.join(rdir, "%s-%d.txt" % (PID, n))
        open(p, "w").write(text)
        return p
    concrete = [c for c in concrete if not is_known(c[1])]
    if concrete:
        text = "Property %s is violated by /repo's current source.\n" % PID
        text += "Failing input(s), found by running the real code (re-run: VERIF_SEED=%s python3 /verif/check.py %s %s):\n" % (SEED, PID, TIER)
        for p, f in concrete[:40]:
            text += "[%s] %s\n" % (p, f)
        text += "\nFailed obligations:\n" + json.dumps(failed, indent=1)[:60000]
        viol.append("VIOLATION property=%s replay=%s" % (PID, wr(1, text)))
    elif failed:
        text = "Obligation(s) of property %s not discharged for /repo's current source; no failing input was found by the drivers.\n" % PID
        text += json.dumps(failed, indent=1)[:200000] + "\n"
        for r in drv:
            if r.get("nobuild"):
                text += "driver for %s does not build:\n%s\n" % (r["package"], r["output"][-4000:])
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, wr(1, text)))
    n_eval = sum(c.get("n", 0) for r in drv for c in r["counts"])
    cov = {
        "obligations": obls, "discharged": disch,
        "checker_cmd": "gover -repo %s -specs /verif/specs -prop %s" % (REPO, PID),
        "trusted_base": trusted + ["gover itself (go/ssa, the symbolic executor, the term normaliser), z3, cvc5"],
        "functions_under_contract": fns, "back_ends": backends, "solver_seconds": round(secs, 3),
        "not_discharged": [f["function"] for f in failed],
        "bounded_drivers": [{"package": r["package"], "tests": r["tests"], "counts": r["counts"],
                             "built": not r.get("nobuild", False)} for r in drv],
        "bounded_driver_cases": n_eval,
        "explanation": "obligations are generated from /repo's current source and discharged on this run; the bounded drivers "
                       "replay failures on the real code, stand in for functions out of the verifier's reach and sample the assumed "
                       "facts; they are never counted as proved",
    }
    lab = os.path.join(V, "bounded.json")
    if os.path.exists(lab):
        cov["bounded_not_proved"] = json.load(open(lab)).get(PID, [])
    ev = {"property": PID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED) if SEED.lstrip("-").isdigit() else 1,
          "level": lvl, "coverage": cov,
          "assumptions": sorted(assumed) + json.load(open(os.path.join(V, "assumptions.json"))),
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(V, "evidence", PID + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %d driver cases, %.1fs" % (PID, obls, disch, len(fns), n_eval, time.time() - T0))
    for f in failed:
        print("  not discharged: %s %s" % (f["function"], (f.get("error") or "")[:300]))
        for o in (f.get("failed") or [])[:6]:
            print("    obligation %s [%s] at %s" % (o["name"], o["kind"], o["position"]))
    for l in viol:
        print(l)
    return 1 if viol else 0

try:
    rc = main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
sys.exit(rc)
