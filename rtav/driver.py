"""Command line driver: runs the subtests of a property in worker processes, writes evidence and replay files."""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from rtav import core

RUN = os.path.join(core.VERIF, "run.py")
LIMIT = {"quick": 780, "thorough": 6 * 3600}  # seconds after which a worker is ended
KNOWN = os.path.join(core.VERIF, "known-findings.txt")


def known_findings():
    """{(prop, fid): text} of the 'known:' lines"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                fid = parts[2].split("=", 1)[1]
                out[(prop, fid)] = parts[3]
    return out


def worker(prop, name, out):
    """run one subtest (or the probes) and write the result as json"""
    try:
        core.load_for(prop)
        core.watch(out + ".hang")
        if name == "__probes__":
            res = run_probes(prop)
        else:
            t = [s for s in core.REGISTRY[prop] if s.name == name][0]
            res = core.run_subtest(t, core.SEED, core.TIER)
    except BaseException as e:  # pylint: disable=broad-except
        res = {"name": name, "status": "error", "error": "".join(traceback.format_exception(e))[-3000:]}
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f, default=str)
    return 0


def run_probes(prop):
    res = {"name": "__probes__", "status": "held", "probes": []}
    for fid, fn in core.PROBES.get(prop, []):
        res["probes"].append({"id": fid, "reproduces": bool(fn())})
    return res


HANG = "the call does not return"


def replay(prop, path):
    data = json.load(open(path, encoding="utf-8"))
    if data.get("note") == HANG and not os.environ.get("RTAV_CHILD"):
        try:
            r = subprocess.run([sys.executable, RUN, prop, "--replay", path], env=dict(os.environ, RTAV_CHILD="1"), check=False, timeout=120)
            return r.returncode
        except subprocess.TimeoutExpired:
            print(f"{HANG} (120 s)")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    core.load_for(prop)
    t = [s for s in core.REGISTRY[prop] if s.name == data["subtest"]][0]
    for key in ("case", "first_case"):
        ctx = core.Ctx(t.name)
        try:
            core.call_subtest(t, data[key], ctx)
            print(f"{key}: held")
        except core.Violation as e:
            print(f"{key}: {e}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    if data.get("note") and data["note"] != HANG:
        print("the failure depends on the history of earlier cases: re-running the recorded seed")
        res = core.run_subtest(t, int(data["seed"]), data["tier"])
        if res["status"] == "violation":
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    return 0


def selftest():
    """setup: everything the checks need is present and importable"""
    import hypothesis
    import jax
    import quadprog  # noqa: F401

    core.load_all()
    n = sum(len(v) for v in core.REGISTRY.values())
    print(f"hypothesis {hypothesis.__version__}, jax {jax.__version__}, {len(core.REGISTRY)} properties, {n} subtests")


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--worker")
    p.add_argument("--out")
    p.add_argument("--replay")
    p.add_argument("--only")
    p.add_argument("--jobs", type=int, default=min(7, os.cpu_count() or 1))
    a = p.parse_args(argv)
    if a.worker:
        return worker(a.prop, a.worker, a.out)
    if a.replay:
        return replay(a.prop, a.replay)

    t0 = time.time()
    core.load_for(a.prop)
    tests = core.REGISTRY[a.prop]
    if a.only:
        tests = [t for t in tests if t.name in a.only.split(",")]
    names = [t.name for t in tests]
    if core.PROBES.get(a.prop) and not a.only:
        names.append("__probes__")
    scratch = tempfile.mkdtemp(prefix="rtav-")
    env = dict(os.environ)
    env["MPLCONFIGDIR"] = scratch
    env["TMPDIR"] = scratch

    def one(name):
        out = os.path.join(scratch, name + ".json")
        cmd = [sys.executable, RUN, a.prop, "--worker", name, "--out", out]
        left = LIMIT[core.TIER] - (time.time() - t0)
        try:
            r = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, timeout=max(left, 30))
        except subprocess.TimeoutExpired:
            return {"name": name, "status": "error", "error": f"no answer within {LIMIT[core.TIER]} s (a call that does not return?)"}
        try:
            return json.load(open(out, encoding="utf-8"))
        except Exception:  # pylint: disable=broad-except
            h = core.hung(out + ".hang")
            if h:
                secs = [t for t in tests if t.name == name][0].hang_seconds
                msg = f"the call did not return within {secs:.0f} s: {h['at']}"
                return {"name": name, "status": "violation", "case": h["case"], "first_case": h["case"], "message": msg, "note": HANG, "evaluations": 1, "nontrivial": 0}
            return {"name": name, "status": "error", "error": f"worker exit {r.returncode}: " + r.stdout.decode(errors="replace")[-2000:]}

    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            results = list(ex.map(one, names))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings()
    rc = 0
    violations = 0
    for r in results:
        line = f"[{a.prop}] {r['name']}: {r['status']} evaluations={r.get('evaluations', 0)} nontrivial={r.get('nontrivial', 0)}"
        line += f" wall={r.get('wall_s', 0)}s labels={r.get('labels', {})}"
        print(line)
        if r.get("skipped_budget"):
            print(f"[{a.prop}] {r['name']}: time budget reached, {r['skipped_budget']} generated cases not run")
        for pr in r.get("probes", []):
            if pr["reproduces"]:
                text = known.get((a.prop, pr["id"]))
                if text is None:
                    rc = 1
                    violations += 1
                    path = write_replay(a.prop, {"name": "probe-" + pr["id"], "case": {}, "first_case": {}, "message": "unlisted finding " + pr["id"]})
                    print(f"VIOLATION property={a.prop} replay={path}")
                else:
                    print(f"KNOWN-FINDING: property={a.prop} {text}")
            else:
                print(f"[{a.prop}] known finding {pr['id']} no longer reproduces")
    for r in results:
        if r["status"] == "violation":
            rc = 1
            violations += 1
            path = write_replay(a.prop, r)
            print(f"[{a.prop}] {r['name']}: {r['message'][:1500]}")
            print(f"VIOLATION property={a.prop} replay={path}")
    if rc == 0 and any(r["status"] == "error" for r in results):
        rc = 2
    for r in results:
        if r["status"] == "error":
            print(f"[{a.prop}] HARNESS ERROR in {r['name']}:\n{r['error']}")
    if not a.only:
        write_evidence(a.prop, tests, results, violations, time.time() - t0)
    print(f"[{a.prop}] {'held' if rc == 0 else 'NOT HELD' if rc == 1 else 'ERROR'} in {time.time() - t0:.1f}s")
    return rc


def write_replay(prop, r):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{r['name']}.json")
    data = {
        "property": prop,
        "subtest": r["name"],
        "case": r["case"],
        "first_case": r["first_case"],
        "message": r["message"],
        "note": r.get("note"),
        "seed": core.SEED,
        "tier": core.TIER,
        "how": f"/opt/venv/bin/python /verif/run.py {prop} --replay {path}",
    }
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def write_evidence(prop, tests, results, violations, wall):
    by = {r["name"]: r for r in results}
    samples = []
    per = {}
    rules = []
    for t in tests:
        r = by.get(t.name, {})
        per[t.name] = {k: r.get(k) for k in ("status", "evaluations", "nontrivial", "labels", "skipped_budget", "wall_s")}
        rules.append(f"{t.name}: {t.rule}")
        for s in r.get("samples", [])[:1]:
            samples.append({"subtest": t.name, "case": s})
    ev = {
        "property": prop,
        "tier": core.TIER,
        "seed": core.SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r.get("evaluations", 0) for r in results),
            "distinct_nontrivial": sum(r.get("nontrivial", 0) for r in results),
            "rule": "Cases are drawn by Hypothesis strategies seeded with VERIF_SEED. Non-trivial per subtest -- " + "; ".join(rules),
            "samples": samples[:12],
            "per_subtest": per,
        },
        "assumptions": core.ASSUMPTIONS.get(prop, []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
