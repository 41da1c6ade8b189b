"""
Runner of the checks: shards, seeds, minimisation, replay, and evidence.

    check.py <ID> --tier quick|thorough       run the simulations
    check.py <ID> --replay <file>             replay a violation (exit 1 if it is reproduced)
"""

import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from . import findings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable
SCRIPT = os.path.join(ROOT, "check.py")


def environment(hashseed):
    """Environment of the processes running the simulations."""
    env = dict(os.environ)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "VTK_SMP_MAX_THREADS"):
        env[k] = "1"
    env["MPLBACKEND"] = "Agg"
    env["QT_QPA_PLATFORM"] = "offscreen"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONPATH"] = ROOT
    env["TZ"] = "UTC"
    return env


def load_check(name):
    return importlib.import_module("dst.checks."+name.lower())


def run_seed(base, name, index):
    txt = "%s/%s/%d" % (base, name, index)
    return int.from_bytes(hashlib.sha256(txt.encode()).digest()[:8], "big")


def _in_repo(tb_text, repo):
    return (os.path.join(repo, "pypeec")+os.sep) in tb_text


def one(check, seed=None, choices=None, wall=120.0, verbose=False):
    """Single run, with the classification of unexpected exceptions."""
    from . import core, sim
    res = core.run_one(check, seed=seed, choices=choices, wall=wall, verbose=verbose)
    if res.error is not None and res.kind is None:
        if res.error.startswith("hang:") and _in_repo(res.error, sim.REPO):
            res.kind = "no-progress"
            res.msg = res.error[-600:]
            res.error = None
        elif _in_repo(res.error, sim.REPO) and "HarnessError" not in res.error:
            last = res.error.strip().splitlines()[-1]
            res.kind = "unexpected-exception"
            res.msg = "%s\n%s" % (last[:300], res.error[-1500:])
            res.error = None
    return res


def prepare(check):
    import resource
    from . import lin, sim
    lim = resource.getrlimit(resource.RLIMIT_AS)[1]
    top = getattr(check, "MEMORY", 7*2**30)
    if top is not None:
        resource.setrlimit(resource.RLIMIT_AS, (top if lim == resource.RLIM_INFINITY else min(top, lim), lim))
    sim.install()
    lin.install()
    if hasattr(check, "prepare"):
        check.prepare()


# ---------------------------------------------------------------- shard

def shard(args):
    """Run a part of the seeds (one JSON document per line on the standard output)."""
    check = load_check(args.id)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    prepare(check)
    t_end = time.monotonic()+args.cap
    (k, n) = (int(x) for x in args.shard.split("/"))
    stat = {
        "runs": 0, "evals": 0, "faults": collections.Counter(), "probes": collections.Counter(), "sim_time": 0.0,
        "steps": 0, "sigs": [], "samples": [], "nontrivial": 0, "first": {}, "choices": 0,
    }
    clock = time.monotonic
    t0 = clock()
    result = None
    for index in range(k, args.runs, n):
        if clock() > t_end:
            break
        if os.path.exists(args.stop):
            break
        res = one(check, seed=run_seed(args.seed, args.id, index), wall=args.wall)
        env = res.env
        stat["runs"] += 1
        stat["evals"] += env.evals
        stat["faults"].update(env.faults)
        stat["probes"].update(env.probes)
        stat["sim_time"] += env.sim_time
        stat["steps"] += env.steps
        stat["choices"] += len(res.choices)
        if env.nontrivial:
            stat["nontrivial"] += 1
            stat["sigs"].append(res.sig)
        if env.sample is not None and len(stat["samples"]) < 3 and env.nontrivial:
            stat["samples"].append(str(env.sample)[:300])
        if len(stat["first"]) < 2:
            stat["first"][str(index)] = res.sig
        if args.verbose:
            print("run %d: %s %s %.2fs" % (index, res.kind, res.sig, clock()-t0), file=sys.stderr, flush=True)
        if res.error is not None:
            result = {"error": res.error, "index": index}
        elif res.kind is not None:
            result = {"kind": res.kind, "msg": res.msg, "index": index, "choices": res.choices}
            if args.keep_going:
                print("run %d: %s: %s" % (index, res.kind, res.msg), file=sys.stderr, flush=True)
                result = None
                continue
        if result is not None:
            open(args.stop, "w").close()
            break
    stat["wall"] = clock()-t0
    json.dump({"stat": stat, "result": result, "shard": k}, out)
    out.flush()
    out.close()


def signatures(args):
    """Signatures of some runs (used to verify the determinism)."""
    check = load_check(args.id)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    prepare(check)
    sigs = {}
    for x in args.signatures.split(","):
        sigs[x] = one(check, seed=run_seed(args.seed, args.id, int(x)), wall=args.wall).sig
    json.dump(sigs, out)
    out.flush()


def do_minimise(args):
    """Minimise a violation (in a fresh process)."""
    from . import core
    check = load_check(args.id)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    prepare(check)
    with open(args.minimise) as fid:
        doc = json.load(fid)

    class Shim:
        """Runs with the classification of unexpected exceptions."""

    # minimise uses run_one: replace it with the classifying version
    real = core.run_one
    core_run = one

    def run(check_, seed=None, choices=None, wall=60.0, verbose=False):
        core.run_one = real
        try:
            return core_run(check_, seed=seed, choices=choices, wall=wall, verbose=verbose)
        finally:
            core.run_one = run
    core.run_one = run
    (best, n_try) = core.minimise(check, doc["choices"], doc["kind"], args.budget, wall=args.wall)
    res = run(check, choices=best, wall=args.wall)
    if res.kind != doc["kind"]:
        best = doc["choices"]
        res = run(check, choices=best, wall=args.wall)
    json.dump({
        "choices": best, "labels": res.labels[:len(best)], "kind": res.kind, "msg": res.msg,
        "trace": res.events[-400:], "n_try": n_try, "error": res.error,
    }, out)
    out.flush()


def replay(args):
    """Replay a violation."""
    with open(args.replay) as fid:
        doc = json.load(fid)
    if os.environ.get("PYTHONHASHSEED") != str(doc["hashseed"]) or "OMP_NUM_THREADS" not in os.environ:
        cmd = [PYTHON, SCRIPT, args.id, "--replay", args.replay]+(["--verbose"] if args.verbose else [])
        return subprocess.call(cmd, env=environment(doc["hashseed"]))
    check = load_check(doc["property"])
    prepare(check)
    res = one(check, choices=doc["choices"], wall=args.wall, verbose=args.verbose)
    if res.error is not None:
        print(res.error)
        return 2
    if res.kind is None:
        print("replay: the property held (recorded violation: %s)" % doc["violation"]["kind"])
        return 0
    for txt in res.events[-60:]:
        print("   ", txt)
    print("violation: %s: %s" % (res.kind, res.msg))
    same = res.kind == doc["violation"]["kind"] and res.sig == doc.get("signature", res.sig)
    print("replay: %s" % ("identical to the recorded violation" if same else "differs from the recorded violation"))
    print("VIOLATION property=%s replay=%s" % (doc["property"], args.replay))
    return 1


# ---------------------------------------------------------------- main

def main(argv=None):
    par = argparse.ArgumentParser()
    par.add_argument("id")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    par.add_argument("--runs", type=int)
    par.add_argument("--jobs", type=int, default=8)
    par.add_argument("--cap", type=float)
    par.add_argument("--wall", type=float, default=120.0)
    par.add_argument("--budget", type=float)
    par.add_argument("--shard")
    par.add_argument("--stop")
    par.add_argument("--signatures")
    par.add_argument("--minimise")
    par.add_argument("--replay")
    par.add_argument("--verbose", action="store_true")
    par.add_argument("--keep-going", action="store_true")
    args = par.parse_args(argv)
    args.id = args.id.upper()
    if args.shard:
        return shard(args)
    if args.signatures:
        return signatures(args)
    if args.minimise:
        return do_minimise(args)
    if args.replay:
        return replay(args)
    return top(args)


def top(args):
    t0 = time.monotonic()
    mod = load_check(args.id)
    quick = args.tier != "thorough"
    runs = args.runs or (mod.RUNS[0] if quick else mod.RUNS[1])
    cap = args.cap or (240.0 if quick else 7200.0)
    budget = args.budget or (60.0 if quick else 240.0)
    jobs = args.jobs
    tmp = tempfile.mkdtemp(prefix="dstrun_")
    stop = os.path.join(tmp, "stop")
    procs = []
    try:
        for k in range(jobs):
            cmd = [PYTHON, SCRIPT, args.id, "--shard", "%d/%d" % (k, jobs), "--runs", str(runs), "--seed", str(args.seed),
                   "--cap", str(cap), "--wall", str(args.wall), "--stop", stop]
            cmd += ["--verbose"] if args.verbose else []
            cmd += ["--keep-going"] if args.keep_going else []
            err = open(os.path.join(tmp, "err%d" % k), "w+")
            out = open(os.path.join(tmp, "out%d" % k), "w+")
            e = None if (args.verbose or args.keep_going) else err
            procs.append((k, subprocess.Popen(cmd, stdout=out, stderr=e, env=environment(k+1), cwd=ROOT), out, err))
        docs = []
        failed = None
        for (k, proc, out, err) in procs:
            try:
                proc.wait(timeout=max(10.0, t0+cap+2*args.wall+60-time.monotonic()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                failed = failed or "shard %d timed out" % k
                continue
            out.seek(0)
            txt = out.read()
            try:
                docs.append(json.loads(txt))
            except ValueError:
                err.seek(0)
                failed = failed or "shard %d failed (exit code %s)\n%s" % (k, proc.returncode, err.read()[-3000:])
        return report(args, mod, docs, failed, t0, tmp, jobs, runs, budget)
    finally:
        for (k, proc, out, err) in procs:
            if proc.poll() is None:
                proc.kill()
            out.close()
            err.close()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def report(args, mod, docs, failed, t0, tmp, jobs, runs, budget):
    known = findings.known(args.id)
    violations = []
    errors = []
    seen_known = []
    for doc in docs:
        r = doc["result"]
        if r is None:
            continue
        if "error" in r:
            errors.append("run %d:\n%s" % (r["index"], r["error"]))
            continue
        for (kind, match, what) in known:
            if r["kind"] == kind and re.search(match, r["msg"] or "", re.S):
                seen_known.append(what)
                break
        else:
            violations.append((r["index"], doc["shard"]+1, r))
    for (kind, match, what) in known:
        print("KNOWN-FINDING: property=%s %s" % (args.id, what))

    # the determinism: the first runs are repeated in new processes
    deter = {"runs": 0, "identical": 0}
    if not violations and not errors and not failed:
        jobs_sig = []
        for doc in docs[:4]:
            first = doc["stat"]["first"]
            if first:
                cmd = [PYTHON, SCRIPT, args.id, "--signatures", ",".join(first), "--seed", str(args.seed), "--wall", str(args.wall)]
                jobs_sig.append((first, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment(doc["shard"]+1), cwd=ROOT)))
        for (first, proc) in jobs_sig:
            try:
                (txt, _) = proc.communicate(timeout=4*args.wall)
                got = json.loads(txt)
            except (ValueError, subprocess.TimeoutExpired):
                proc.kill()
                continue
            for k, v in first.items():
                deter["runs"] += 1
                deter["identical"] += int(got.get(k) == v)
        if deter["identical"] != deter["runs"]:
            print("warning: %d of %d repeated runs are not identical" % (deter["runs"]-deter["identical"], deter["runs"]))

    wall = time.monotonic()-t0
    tot = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    sigs = set()
    samples = []
    cpu = 0.0
    for doc in docs:
        s = doc["stat"]
        for k in ("runs", "evals", "sim_time", "steps", "nontrivial", "choices"):
            tot[k] += s[k]
        cpu += s["wall"]
        faults.update(s["faults"])
        probes.update(s["probes"])
        sigs.update(s["sigs"])
        samples += s["samples"]
    run_wall = max([doc["stat"]["wall"] for doc in docs] or [1.0])
    viol = []
    code = 0
    if violations:
        violations.sort(key=lambda x: x[0])
        (index, hashseed, r) = violations[0]
        path = save_replay(args, index, hashseed, r, tmp, budget)
        viol.append({"kind": r["kind"], "message": str(r["msg"])[:2000], "replay": path, "run": index, "seed": str(args.seed)})
        code = 1
    missing = [p for p in getattr(mod, "PROBES", []) if not probes.get(p) and not faults.get(p)]
    samples = samples[:6]
    evidence = {
        "property": args.id,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": int(args.seed) if str(args.seed).isdigit() else 0,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": int(tot["runs"]),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "entry_point_calls": int(tot["evals"]),
            "seeds": "run seeds 0..%d derived from VERIF_SEED=%s, %d shards with the hash seeds 1..%d" % (runs-1, args.seed, jobs, jobs),
            "runs_per_hour": int(3600*tot["runs"]/max(run_wall, 1e-3)),
            "simulated_seconds": round(float(tot["sim_time"]), 3),
            "scheduler_steps": int(tot["steps"]),
            "choices_drawn": int(tot["choices"]),
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "probes_never_reached": missing,
            "distinct_measure": "distinct hashes of the complete event log (schedule, faults, outcomes) of the nontrivial runs",
            "determinism_rerun": deter,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", args.id+".json"), "w") as fid:
        json.dump(evidence, fid, indent=1)
    print("%s %s: %d runs (%d nontrivial, %d distinct), %d evaluations, %d faults, %.1f s" % (
        args.id, args.tier, tot["runs"], tot["nontrivial"], len(sigs), tot["evals"], sum(faults.values()), wall))
    if missing:
        print("probes never reached: %s" % ", ".join(missing))
    if violations:
        print("%s: %s" % (r["kind"], str(r["msg"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (args.id, path))
        return 1
    if errors or failed:
        print("HARNESS ERROR: %s" % (errors[0] if errors else failed))
        return 2
    if tot["runs"] == 0:
        print("HARNESS ERROR: no run")
        return 2
    return code


def save_replay(args, index, hashseed, r, tmp, budget):
    """Minimise the violation and write the replay file."""
    src = os.path.join(tmp, "viol.json")
    with open(src, "w") as fid:
        json.dump(r, fid)
    doc = None
    wall = args.wall if r["kind"] == "no-progress" else min(args.wall, 60.0)
    cmd = [PYTHON, SCRIPT, args.id, "--minimise", src, "--budget", str(budget), "--wall", str(wall)]
    try:
        txt = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment(hashseed), cwd=ROOT, timeout=2*budget+4*wall).stdout
        doc = json.loads(txt)
        if doc["kind"] != r["kind"]:
            doc = None
    except (ValueError, subprocess.TimeoutExpired):
        doc = None
    if doc is None:
        doc = {"choices": r["choices"], "labels": [], "kind": r["kind"], "msg": r["msg"], "trace": [], "n_try": 0}
    out = {
        "property": args.id,
        "seed": str(args.seed),
        "run": index,
        "run_seed": run_seed(args.seed, args.id, index),
        "hashseed": hashseed,
        "choices": doc["choices"],
        "labels": doc["labels"],
        "violation": {"kind": doc["kind"], "message": doc["msg"]},
        "trace": doc["trace"],
        "minimisation_runs": doc["n_try"],
        "choices_before": len(r["choices"]),
    }
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (args.id, args.seed, index))
    with open(path, "w") as fid:
        json.dump(out, fid, indent=1)
    rc = subprocess.run([PYTHON, SCRIPT, args.id, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                        env=environment(hashseed), cwd=ROOT)
    print("replay in a new process: %s" % ("reproduced" if rc.returncode == 1 else "NOT reproduced (%d)" % rc.returncode))
    return path
