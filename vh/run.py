"""Check driver: python -m vh.run C01. Spawns workers, merges, confirms, reports."""
import hashlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STUCK_S = 150.0

# Defaults; a property module may override any of them with a module-level constant of
# the same name (read textually, so that the driver never imports jax).
DEFAULTS = dict(
    N_QUICK=40, N_THOROUGH=600, BUDGET_QUICK=45, BUDGET_THOROUGH=900,
    X32_WORKERS=2, WORKERS=8, HANG_IS_VIOLATION=0,
)


def module_constants(prop):
    src = open(os.path.join(HERE, "vh", "props", prop.lower() + ".py")).read()
    out = dict(DEFAULTS)
    for k in DEFAULTS:
        m = re.search(r"^%s = ([0-9.]+)$" % k, src, re.M)
        if m:
            out[k] = type(DEFAULTS[k])(float(m.group(1)))
    m = re.search(r'^RULE = \(?\s*((?:"(?:[^"\\]|\\.)*"\s*)+)', src, re.M)
    out["RULE"] = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) if m else ""
    return out


def worker_env(x64):
    e = dict(os.environ)
    e.update(
        VH_X64="1" if x64 else "0", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", PYTHONUNBUFFERED="1",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3",
    )
    e.pop("PYTHONPATH", None)
    return e


def spawn(args, x64, log):
    return subprocess.Popen(
        [PY, "-m", "vh.worker"] + args, cwd=HERE, env=worker_env(x64),
        stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
    )


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def run_to_end(p, out, limit):
    """Wait for one worker. Returns 'ok', 'stuck' or 'late'."""
    t0 = time.time()
    while p.poll() is None:
        time.sleep(0.1)
        b = load(out + ".beat")
        now = time.time()
        if b and now - b["t"] > STUCK_S:
            kill(p)
            return "stuck"
        if now - t0 > limit:
            kill(p)
            return "late"
    return "ok"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = module_constants(prop)
    n = cfg["N_QUICK"] if tier == "quick" else cfg["N_THOROUGH"]
    budget = cfg["BUDGET_QUICK"] if tier == "quick" else cfg["BUDGET_THOROUGH"]
    shrink = 40.0 if tier == "quick" else 120.0
    if os.environ.get("VH_BUDGET"):
        budget = float(os.environ["VH_BUDGET"])
    nw = cfg["WORKERS"]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        code = drive(prop, tier, seed, cfg, n, budget, shrink, nw, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def worker_args(prop, seed, i, n, budget, shrink, tier, out, corpus):
    a = [prop, "--seed", str(seed), "--idx", str(i), "--n", str(n), "--budget", str(budget),
         "--shrink", str(shrink), "--tier", tier, "--out", out]
    if corpus:
        a.append("--corpus")
    return a


def drive(prop, tier, seed, cfg, n, budget, shrink, nw, tmp, t0):
    x32 = min(cfg["X32_WORKERS"], nw - 1)
    procs = []
    for i in range(nw):
        out = os.path.join(tmp, "w%d.json" % i)
        x64 = i < nw - x32
        corpus = i == 0 or i == nw - x32
        log = open(os.path.join(tmp, "w%d.log" % i), "w")
        a = worker_args(prop, seed, i, n, budget, shrink, tier, out, corpus)
        procs.append(dict(i=i, out=out, x64=x64, args=a, log=log.name, p=spawn(a, x64, log)))

    limit = budget + shrink + STUCK_S + 30
    stuck = []
    live = list(procs)
    while live:
        time.sleep(0.1)
        for w in list(live):
            if w["p"].poll() is not None:
                live.remove(w)
                continue
            b = load(w["out"] + ".beat")
            now = time.time()
            if b and now - b["t"] > STUCK_S:
                kill(w["p"])
                stuck.append((w, b["case"]))
                live.remove(w)
            elif now - t0 > limit:
                kill(w["p"])
                w["late"] = True
                live.remove(w)

    results, errors, fails = [], [], []
    for w in procs:
        r = load(w["out"])
        if r is None:
            if any(s[0] is w for s in stuck):
                continue
            rc = w["p"].returncode
            errors.append("worker %d ended with %s and no result%s\n%s" % (
                w["i"], rc, " (time limit)" if w.get("late") else "", tail(w["log"])))
            continue
        results.append(r)
        if r["failure"]:
            fails.append((w, r["failure"]))
        elif r["error"]:
            errors.append("worker %d: %s" % (w["i"], r["error"]))

    violation = None
    # Smallest failure first; confirm in a fresh process.
    fails.sort(key=lambda t: len(json.dumps(t[1]["case"])))
    for w, f in fails[:3]:
        violation = confirm(prop, tmp, w, f)
        if violation:
            break
    notes = []
    if fails and not violation:
        notes.append("a failure did not reproduce in a fresh process nor in a rerun of its worker")
    if not violation and stuck:
        w, case = stuck[0]
        if cfg["HANG_IS_VIOLATION"]:
            path = os.path.join(tmp, "stuck.json")
            json.dump(dict(case=case), open(path, "w"))
            out = os.path.join(tmp, "stuck_out.json")
            log = open(os.path.join(tmp, "stuck.log"), "w")
            p = spawn([prop, "--replay", path, "--out", out], w["x64"], log)
            st = run_to_end(p, out, STUCK_S + 60)
            if st != "ok":
                violation = save_replay(prop, w, dict(case=case, message="does not terminate (%.0f s, twice)" % STUCK_S))
            else:
                errors.append("a worker was stuck on a case that ends when rerun")
        else:
            errors.append("worker %d was stuck for %.0f s on one case" % (w["i"], STUCK_S))

    known = {}
    for r in results:
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    listed = load(os.path.join(HERE, "known_findings.json")) or {"findings": []}
    ids = {f["id"]: f for f in listed["findings"] if f["property"] == prop and f["status"] == "known"}
    for k in sorted(known):
        if k in ids:
            print("KNOWN-FINDING: property=%s %s" % (prop, ids[k]["what"]))
        else:
            errors.append("finding %r is not listed in known_findings.json" % k)

    write_evidence(prop, tier, seed, cfg, results, notes, known, time.time() - t0, bool(violation))

    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        print("  " + violation["message"].replace("\n", "\n  ")[:2000])
        return 1
    if errors:
        print("ERROR in the check of %s (not a violation):" % prop)
        for e in errors[:3]:
            print(e)
        return 2
    ev = sum(r["evaluations"] for r in results)
    nt = len(set(h for r in results for h in r["nontrivial"]))
    print("OK property=%s cases=%d nontrivial=%d skipped=%d wall=%.1fs%s" % (
        prop, ev, nt, sum(r["skipped"] for r in results), time.time() - t0,
        "".join(" NOTE: " + s for s in notes)))
    return 0


def save_replay(prop, w, f, extra=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    doc = dict(property=prop, x64=w["x64"], case=f["case"], message=f["message"], detail=f.get("detail", ""))
    if extra:
        doc.update(extra)
    h = hashlib.sha256(json.dumps(doc["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    return dict(path=path, message=f["message"])


def confirm(prop, tmp, w, f):
    for key in ("case", "first"):
        if key not in f:
            continue
        path = os.path.join(tmp, "confirm.json")
        json.dump(dict(case=f[key]), open(path, "w"))
        out = os.path.join(tmp, "confirm_out.json")
        if os.path.exists(out):
            os.unlink(out)
        log = open(os.path.join(tmp, "confirm.log"), "w")
        p = spawn([prop, "--replay", path, "--out", out], w["x64"], log)
        run_to_end(p, out, 120)
        r = load(out)
        if r and r["failure"]:
            return save_replay(prop, w, r["failure"])
    # Depends on earlier cases of the worker: rerun it whole.
    out = os.path.join(tmp, "rerun.json")
    a = [x if x != w["out"] else out for x in w["args"]]
    log = open(os.path.join(tmp, "rerun.log"), "w")
    p = spawn(a, w["x64"], log)
    run_to_end(p, out, 200)
    r = load(out)
    if r and r["failure"]:
        return save_replay(prop, w, r["failure"], dict(
            needs_history="fails only after the earlier cases of this worker",
            worker_args=[x if x != out else "OUT" for x in a]))
    return None


def write_evidence(prop, tier, seed, cfg, results, notes, known, wall, violated):
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    nt = set(h for r in results for h in r["nontrivial"])
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append(json.dumps(s)[:3000])
    doc = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(nt),
            rule=cfg["RULE"],
            samples=samples[:4],
            oracle_comparisons=sum(r["inner"] for r in results),
            classes=labels,
            workers_float64=sum(1 for r in results if r["x64"]),
            workers_float32=sum(1 for r in results if not r["x64"]),
            saved_cases_replayed=sum(r["corpus"] for r in results),
            cases_skipped_by_time_budget=sum(r["skipped"] for r in results),
            known_finding_hits=known,
            notes=notes,
        ),
        assumptions=["float64 reference implementations in /verif/vh", "jax, jaxlie, scipy, CHOLMOD as installed"],
        wall_s=round(wall, 2),
        violations=1 if violated else 0,
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


if __name__ == "__main__":
    main()
