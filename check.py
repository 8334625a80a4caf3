#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the workload of one property against /repo in parallel worker interpreters (each with its own PYTHONHASHSEED),
merges what their monitors observed, writes evidence/<property>.json and decides:
exit 0 held on everything explored, exit 1 + VIOLATION line, exit 2 inconclusive (harness error, monitors not reached).
"""
import argparse
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from bpmnmon import core  # noqa: E402
PY = "/opt/venv/bin/python"


def env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONHASHSEED=str(hashseed),
             PYTHONPATH=HERE, PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(tempfile.gettempdir(), "bpmnmon_mpl"))
    return e


def meta(prop):
    """Static facts about the property's module, read without importing the code under test."""
    m = importlib.import_module("bpmnmon.props." + prop)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--count", type=int)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.monotonic()
    mod = meta(a.prop)
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.seed, a.tier, only = r["seed"], r["tier"], r["case"]
    shards = 1 if only else min(a.shards, getattr(mod, "SHARDS", 8))
    budget = {"quick": 240, "thorough": 780}[a.tier]
    tmp = tempfile.mkdtemp(prefix="bpmnmon_run_")
    procs = []
    try:
        for k in range(shards):
            out = os.path.join(tmp, "out%d.json" % k)
            cmd = [PY, "-m", "bpmnmon.worker", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--shard", str(k),
                   "--shards", str(shards), "--out", out, "--budget", str(budget)]
            if a.count is not None:
                cmd += ["--count", str(a.count)]
            if only:
                cmd += ["--only", only]
            log = open(os.path.join(tmp, "log%d" % k), "w+")
            hs = (a.seed * 1000003 + k * 7919 + 1) % 4294967295
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env(hs), cwd=tmp,
                                           start_new_session=True), out, log))
        results, killed = [None] * shards, False
        deadline = t0 + budget + 80
        pending = set(range(shards))
        while pending and not killed:
            time.sleep(0.02)
            for k in list(pending):
                p, out, log = procs[k]
                if p.poll() is None:
                    continue
                pending.discard(k)
                if os.path.exists(out):
                    with open(out) as f:
                        results[k] = json.load(f)
                else:
                    log.seek(0)
                    results[k] = {"ok": False, "error": "worker ended with %s: %s" % (p.returncode, log.read()[-2000:]),
                                  "counters": {}, "fps": [], "samples": [], "lines": {}, "violation": None}
                if results[k]["violation"]:
                    killed = True
            if time.monotonic() > deadline:
                break
        timed_out = bool(pending) and not killed
        for k in pending:
            try:
                os.killpg(procs[k][0].pid, signal.SIGKILL)
            except OSError:
                pass
            procs[k][0].wait()
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            log.close()
        shutil.rmtree(tmp, ignore_errors=True)

    counters, fps, samples, lines, errors, viols = collections.Counter(), set(), [], collections.defaultdict(set), [], []
    for r in results:
        if r is None:
            continue
        counters.update(r["counters"])
        fps.update(r["fps"])
        samples += r["samples"]
        for f, ns in r["lines"].items():
            lines[f].update(ns)
        if r["error"]:
            errors.append(r["error"])
        if r["violation"]:
            viols.append(r["violation"])
    status, code = "held", 0
    why = []
    if viols:
        status, code = "violated", 1
    else:
        if errors:
            why += ["harness error: " + e for e in errors[:2]]
        if timed_out:
            why.append("watchdog: workers still running after %d s" % (budget + 80))
        if counters.get("cases_skipped_by_time_budget") and counters["cases"] < 20:
            why.append("time budget used up after %d cases" % counters["cases"])
        if not only and a.count is None:
            for k, v in getattr(mod, "MIN", {}).items():
                if counters.get(k, 0) < v:
                    why.append("too little observed: %s = %d < %d" % (k, counters.get(k, 0), v))
        if why:
            status, code = "inconclusive", 2

    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": counters.get("cases", 0) + len(viols),
            "distinct_nontrivial": len(fps),
            "rule": mod.RULE,
            "samples": samples[:4],
            "monitor_events": {k: counters[k] for k in sorted(counters)},
            "lines_of_package_executed": {f: len(ns) for f, ns in sorted(lines.items())},
            "interpreters_with_distinct_hash_seeds": shards,
            "outcome": status,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(viols),
    }
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", a.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
    if viols:
        v = viols[0]
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = a.replay or os.path.join(HERE, "out", "%s-%s-seed%d-%s.json" % (a.prop, a.tier, a.seed, v["case"]))
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, "case": v["case"],
                           "detail": v["detail"], "trace": v["trace"], "inputs": v["inputs"],
                           "run": "python3 /verif/check.py %s --replay %s" % (a.prop, path)}, f, indent=1, default=str)
        print("detail: " + v["detail"])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    for key, what in core.load_known(a.prop).items():
        if counters.get("known:" + key):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    for w in why:
        print("INCONCLUSIVE: " + w)
    print("%s: %s, %d cases (%d distinct non-trivial), %d checks, %.1f s" % (
        a.prop, status, counters.get("cases", 0), len(fps), counters.get("checks", 0), time.monotonic() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
