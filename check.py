#!/usr/bin/env python3
"""
Run one deterministic-simulation check.

  check.py ID [--tier quick|thorough] [--seed N] [--runs N]   explore
  check.py ID --replay FILE                                   replay a violation
  check.py ID --determinism N                                 prove determinism

Exit status: 0 the property held on everything explored, 1 it is broken (with a
line `VIOLATION property=<id> replay=<path>`), 3 the harness itself failed.
"""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sim import core  # noqa: E402

NWORKERS = 8
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
DEFAULT_BUDGET = {"quick": 420.0, "thorough": 3600.0}


def load_check(pid):
    return importlib.import_module(f"checks.{pid}")


def hashseed_for(seed, worker):
    return (seed * 1009 + worker * 7919 + 1) % 4294967295


def known_findings(pid):
    """{signature: text} of the open findings of this property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    fields = dict(f.split("=", 1) for f in line[7:].split(" ", 2)[:2])
                    if fields.get("property") == pid:
                        out[fields["signature"]] = line[7:].split(" ", 2)[2]
    return out


def signature(res):
    return f"{res['kind']}/{res.get('key', '')}".replace(" ", "_")


# --------------------------------------------------------------------------
# worker: a stripe of the runs, in one interpreter
# --------------------------------------------------------------------------

def worker(args):
    mod = load_check(args.id)
    mod.setup()
    known = known_findings(args.id)
    start = core.real_monotonic()
    tot = {
        "runs": 0, "nontrivial": 0, "faults": collections.Counter(), "probes": collections.Counter(),
        "states": set(), "traces": set(), "simtime": 0.0, "steps": 0, "events": 0, "known": {},
        "violation": None, "harness": [], "samples": [], "stopped_early": False, "extra": collections.Counter(),
    }
    for index in range(args.worker, args.runs, NWORKERS):
        if core.real_monotonic() - start > args.budget:
            tot["stopped_early"] = True
            break
        want_log = len(tot["samples"]) < 1
        res = core.fork_run(mod, lambda: core.make_plan(mod, args.seed, index, args.tier), keep_log=want_log)
        if res["status"] == "harness":
            tot["harness"].append({"index": index, **{k: res.get(k) for k in ("kind", "msg")}})
            break
        if core.is_violation(res):
            sig = signature(res)
            if sig in known:
                tot["known"][sig] = index
            else:
                tot["violation"] = {"index": index, "res": res}
                break
        tot["runs"] += 1
        for name in ("faults", "probes", "extra"):
            tot[name].update(res.get(name, {}))
        tot["states"].update(res.get("states", ()))
        if res.get("nontrivial"):
            tot["nontrivial"] += 1
            tot["traces"].add(res["trace"])
            if want_log and res.get("log"):
                plan = core.make_plan(mod, args.seed, index, args.tier)
                tot["samples"].append({"index": index, "plan": _clip(plan), "history": res["log"][:40]})
        for name in ("simtime", "steps", "events"):
            tot[name] += res.get(name, 0)
    tot["states"] = sorted(tot["states"])
    tot["traces"] = sorted(tot["traces"])
    tot["wall"] = core.real_monotonic() - start
    with open(args.out, "w", encoding="utf-8") as fh:
        json.dump(tot, fh)
    return 0


def _clip(obj, limit=2500):
    text = core.jdump(obj)
    return json.loads(text) if len(text) <= limit else text[:limit] + "..."


# --------------------------------------------------------------------------
# one plan, in a fresh interpreter
# --------------------------------------------------------------------------

def exec_plan(args):
    """Run plan (json from args.plan) and print the result; used for confirmation."""
    mod = load_check(args.id)
    mod.setup()
    with open(args.plan, encoding="utf-8") as fh:
        rec = json.load(fh)
    plan = rec["plan"]
    if args.shrink:
        plan, tries = core.shrink(mod, plan, rec["kind"])
        rec["plan"] = plan
        rec["shrink_tries"] = tries
    res = core.fork_run(mod, lambda: plan, keep_log=True)
    rec["res"] = res
    with open(args.out, "w", encoding="utf-8") as fh:
        json.dump(rec, fh)
    return 0


def fresh(args, rec, shrink, tmp):
    """Execute exec_plan() in a new process with the hash seed of rec."""
    src = os.path.join(tmp, "plan.json")
    dst = os.path.join(tmp, "out.json")
    with open(src, "w", encoding="utf-8") as fh:
        json.dump(rec, fh)
    if os.path.exists(dst):
        os.unlink(dst)
    cmd = [sys.executable, "-B", os.path.join(HERE, "check.py"), args.id, "--exec-plan", src, "--out", dst]
    if shrink:
        cmd.append("--shrink")
    env = dict(os.environ, PYTHONHASHSEED=str(rec["hashseed"]))
    try:
        proc = subprocess.run(cmd, env=env, cwd=HERE, timeout=420, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return None
    if proc.returncode != 0 or not os.path.exists(dst):
        sys.stderr.write(proc.stderr.decode("utf-8", "replace")[-3000:])
        return None
    with open(dst, encoding="utf-8") as fh:
        return json.load(fh)


# --------------------------------------------------------------------------
# explore
# --------------------------------------------------------------------------

def explore(args):
    mod = load_check(args.id)
    t0 = core.real_monotonic()
    runs = args.runs or mod.RUNS[args.tier]
    budget = args.budget or DEFAULT_BUDGET[args.tier]
    with tempfile.TemporaryDirectory(prefix="vp-sim-") as tmp:
        procs = []
        for w in range(NWORKERS):
            out = os.path.join(tmp, f"w{w}.json")
            hs = hashseed_for(args.seed, w)
            cmd = [sys.executable, "-B", os.path.join(HERE, "check.py"), args.id, "--worker", str(w), "--seed", str(args.seed),
                   "--tier", args.tier, "--runs", str(runs), "--budget", str(budget), "--out", out]
            env = dict(os.environ, PYTHONHASHSEED=str(hs), TMPDIR=tmp)
            err = open(os.path.join(tmp, f"w{w}.err"), "wb")
            procs.append((w, hs, out, err, subprocess.Popen(cmd, env=env, cwd=HERE, stdout=err, stderr=err)))
        results = []
        failed = []
        for w, hs, out, err, proc in procs:
            try:
                rc = proc.wait(timeout=max(60.0, budget + 400 - (core.real_monotonic() - t0)))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                rc = "timeout"
            err.close()
            if rc != 0 or not os.path.exists(out):
                with open(err.name, encoding="utf-8", errors="replace") as fh:
                    failed.append(f"worker {w} rc={rc}: " + fh.read()[-2500:])
                continue
            with open(out, encoding="utf-8") as fh:
                res = json.load(fh)
            res["worker"], res["hashseed"] = w, hs
            results.append(res)

        violations = sorted((r for r in results if r["violation"]), key=lambda r: r["violation"]["index"])
        harness = [dict(h, worker=r["worker"]) for r in results for h in r["harness"]]
        rc = 0
        report = None
        if violations:
            report = confirm(args, mod, violations, tmp)
            if report is not None:
                rc = 1
        if rc == 0 and (failed or harness or violations):
            for text in failed:
                print("HARNESS-ERROR:", text, file=sys.stderr)
            for h in harness:
                print("HARNESS-ERROR:", json.dumps(h)[:4000], file=sys.stderr)
            if violations:
                print("HARNESS-ERROR: violation did not reproduce in a fresh process:", json.dumps(violations[0]["violation"])[:3000], file=sys.stderr)
            rc = 3
        total_runs = sum(r["runs"] for r in results)
        if rc == 0 and total_runs < max(1, runs // 20):
            print(f"HARNESS-ERROR: only {total_runs} of {runs} runs fit in the time budget", file=sys.stderr)
            rc = 3
        write_evidence(args, mod, results, runs, core.real_monotonic() - t0, 1 if rc == 1 else 0)

    for sig, text in known_findings(args.id).items():
        hit = any(sig in r["known"] for r in results)
        if hit or getattr(mod, "known_still_fails", lambda s: False)(sig):
            print(f"KNOWN-FINDING: property={args.id} {text}")
    if rc == 1:
        print(f"violation kind: {report['kind']}")
        print(report["msg"][:3000])
        print(f"VIOLATION property={args.id} replay={report['path']}")
    elif rc == 0:
        print(f"OK property={args.id} runs={total_runs} nontrivial={sum(r['nontrivial'] for r in results)} "
              f"wall={core.real_monotonic() - t0:.1f}s")
    return rc


def confirm(args, mod, violations, tmp):
    """Reproduce, minimise, reproduce again; return the report or None."""
    for r in violations[:4]:
        v = r["violation"]
        plan = core.make_plan(mod, args.seed, v["index"], args.tier)
        rec = {"property": args.id, "seed": args.seed, "index": v["index"], "tier": args.tier, "hashseed": r["hashseed"],
               "kind": v["res"]["kind"], "plan": plan}
        first = fresh(args, rec, False, tmp)
        if first is None or not core.is_violation(first["res"]):
            continue
        rec["kind"] = first["res"]["kind"]
        best, res = rec, first["res"]
        if not args.no_shrink:
            small = fresh(args, rec, True, tmp)
            if small is not None and core.is_violation(small["res"]) and small["res"]["kind"] == rec["kind"]:
                again = fresh(args, dict(rec, plan=small["plan"]), False, tmp)
                if again is not None and core.is_violation(again["res"]) and again["res"].get("trace") == small["res"].get("trace"):
                    best, res = dict(rec, plan=small["plan"], shrink_tries=small.get("shrink_tries")), again["res"]
        best["msg"] = res.get("msg", "")
        best["trace"] = res.get("trace")
        best["history"] = res.get("log", [])
        best["original_plan"] = plan
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{args.id}-seed{args.seed}-run{v['index']}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(best, fh, indent=1, sort_keys=True)
        return dict(best, path=os.path.relpath(path, HERE))
    return None


def write_evidence(args, mod, results, runs, wall, nviol):
    faults, probes, extra = collections.Counter(), collections.Counter(), collections.Counter()
    states, traces = set(), set()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        extra.update(r["extra"])
        states.update(r["states"])
        traces.update(r["traces"])
    done = sum(r["runs"] for r in results)
    busy = max([r["wall"] for r in results] or [0.001])
    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(traces),
        "rule": mod.RULE,
        "samples": [s for r in results for s in r["samples"]][:3],
        "runs_planned": runs,
        "seeds": f"PRNG seeded with '<VERIF_SEED={args.seed}>/{args.id}/<run index>', one seed per run, run indexes 0..{runs - 1}",
        "simulated_runs_per_hour": int(done / max(busy, 0.001) * 3600),
        "simulated_time_s": round(sum(r["simtime"] for r in results), 3),
        "scheduler_steps": sum(r["steps"] for r in results),
        "history_events": sum(r["events"] for r in results),
        "faults_injected": dict(sorted(faults.items())),
        "rare_condition_probes": dict(sorted(probes.items())),
        "distinct_states": len(states),
        "state_measure": mod.STATE_MEASURE,
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
        "hash_seeds": [r["hashseed"] for r in results],
        "stopped_early": any(r["stopped_early"] for r in results),
    }
    if extra:
        coverage["counters"] = dict(sorted(extra.items()))
    doc = {
        "property": args.id, "tier": args.tier, "seed": args.seed, "level": "exploration", "coverage": coverage,
        "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{args.id}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as fh:
        json.dump(doc, fh, indent=1)
    os.replace(path + ".tmp", path)


# --------------------------------------------------------------------------
# replay and determinism
# --------------------------------------------------------------------------

def replay(args):
    with open(args.replay, encoding="utf-8") as fh:
        rec = json.load(fh)
    with tempfile.TemporaryDirectory(prefix="vp-sim-") as tmp:
        out = fresh(args, rec, False, tmp)
    if out is None:
        print("HARNESS-ERROR: replay failed", file=sys.stderr)
        return 3
    res = out["res"]
    for line in res.get("log", []):
        print("  ", line)
    print(res.get("msg", ""))
    if core.is_violation(res):
        same = res["kind"] == rec["kind"] and (rec.get("trace") in (None, res.get("trace")))
        print(f"replayed: kind={res['kind']} trace={res.get('trace')} exact={same}")
        print(f"VIOLATION property={args.id} replay={args.replay}")
        return 1
    print(f"the violation in {args.replay} does not happen (status {res['status']})")
    return 0 if res["status"] == "ok" else 3


def det_worker(args):
    mod = load_check(args.id)
    mod.setup()
    out = {}
    for index in range(args.worker, args.runs, args.nworkers):
        res = core.fork_run(mod, lambda: core.make_plan(mod, args.seed, index, args.tier))
        out[index] = [res["status"], res.get("kind"), res.get("trace"), res.get("events"), res.get("steps"), res.get("faults")]
    with open(args.out, "w", encoding="utf-8") as fh:
        json.dump(out, fh)
    return 0


def determinism(args):
    """The same runs with several worker counts and hash seeds: equal histories."""
    n = args.determinism
    outs = []
    with tempfile.TemporaryDirectory(prefix="vp-sim-") as tmp:
        seeds = (0, 0, 0, 0) if getattr(load_check(args.id), "HASHSEED_DEPENDENT", False) else (0, 0, 12345, 99)
        for nworkers, hs in zip((8, 8, 3, 5), seeds):
            procs = []
            for w in range(nworkers):
                out = os.path.join(tmp, f"d{len(outs)}-{w}.json")
                cmd = [sys.executable, "-B", os.path.join(HERE, "check.py"), args.id, "--det-worker", "--worker", str(w), "--nworkers", str(nworkers),
                       "--seed", str(args.seed), "--tier", args.tier, "--runs", str(n), "--out", out]
                procs.append((out, subprocess.Popen(cmd, env=dict(os.environ, PYTHONHASHSEED=str(hs), TMPDIR=tmp), cwd=HERE)))
            merged = {}
            for out, proc in procs:
                if proc.wait() != 0:
                    print("HARNESS-ERROR: determinism worker failed", file=sys.stderr)
                    return 3
                with open(out, encoding="utf-8") as fh:
                    merged.update(json.load(fh))
            outs.append(merged)
    bad = [i for i in outs[0] if any(o[i] != outs[0][i] for o in outs[1:])]
    print(f"determinism property={args.id} runs={n} x{len(outs)} (8, 8, 3 and 5 processes; {len(set(seeds))} hash seeds): {len(bad)} differ")
    for i in bad[:5]:
        for o in outs:
            print("   ", i, o[i])
    return 3 if bad else 0


def selftest():
    """Import the code under test, and make one plan with every check."""
    from sim import target

    target.setup()
    for name in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if name.endswith(".py") and name[0].isupper():
            mod = load_check(name[:-3])
            core.make_plan(mod, 1, 0, "quick")
            print(f"{mod.ID}: ok")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?", default="")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0.0)
    ap.add_argument("--replay")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--determinism", type=int, default=0)
    ap.add_argument("--worker", type=int, default=-1)
    ap.add_argument("--nworkers", type=int, default=NWORKERS)
    ap.add_argument("--det-worker", action="store_true")
    ap.add_argument("--exec-plan", dest="plan")
    ap.add_argument("--shrink", action="store_true")
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.selftest:
        return selftest()
    if not args.id:
        ap.error("a property id is needed")
    if args.det_worker:
        return det_worker(args)
    if args.worker >= 0:
        return worker(args)
    if args.plan:
        return exec_plan(args)
    if args.replay:
        return replay(args)
    if args.determinism:
        return determinism(args)
    return explore(args)


if __name__ == "__main__":
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 3
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.exit(rc)
