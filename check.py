#!/usr/bin/env python3
"""
Run the check of one property:   check.py P01 [--tier quick|thorough]
Replay a saved violation:        check.py --replay replays/P01-....json

Exit 0: the property held on everything explored.
Exit 1: violated, with a line VIOLATION property=<id> replay=<path>.
Exit 2: the check itself failed.
"""

import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HARNESS = os.path.join(HERE, "lib", "harness.py")
NCPU = 8


def environment(tmp):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO,
        PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(tmp, "mpl"),
        TMPDIR=tmp,
        VERIF_SCRATCH=tmp,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OMPI_MCA_ess_singleton_isolated="1",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_orte_tmpdir_base=tmp,
    )
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    for d in ("pyc", "mpl"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    return env


def list_subs(prop, env):
    code = (
        "import sys,glob,json;sys.path.insert(0,%r);"
        "[sys.path.append(p) for p in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')];"
        "import lib.harness as H;m=H.load(%r);"
        "open(sys.argv[1],'w').write(json.dumps({'subs':[[s.name,s.quick,s.thorough,s.shards] for s in m.SUBS],"
        "'rule':m.RULE,'assumptions':getattr(m,'ASSUMPTIONS',[])}))"
    ) % (HERE, prop)
    out = os.path.join(env["VERIF_SCRATCH"], "subs.json")
    p = subprocess.run([PY, "-c", code, out], env=env, cwd=env["VERIF_SCRATCH"], stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if not os.path.exists(out):
        print("cannot load the check module of %s:\n%s" % (prop, p.stdout[-4000:]))
        sys.exit(2)
    with open(out) as f:
        return json.load(f)


def known_findings(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def run(prop, tier, seed, only=None):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    procs = {}
    try:
        env = environment(tmp)
        info = list_subs(prop, env)
        evidence = os.path.join(HERE, "evidence", prop + ".json")
        os.makedirs(os.path.dirname(evidence), exist_ok=True)
        if os.path.exists(evidence):
            os.remove(evidence)
        budget = 420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000"))
        tasks = []
        for name, quick, thorough, shards in info["subs"]:
            if only and name != only or not (quick if tier == "quick" else thorough):
                continue
            for s in range(shards):
                tasks.append((name, s, shards))
        results = []
        queue = list(tasks)
        hard = t0 + (780 if tier == "quick" else budget + 1800)
        errors = []
        while queue or procs:
            while queue and len(procs) < NCPU:
                name, s, shards = queue.pop(0)
                out = os.path.join(tmp, "res_%s_%d.json" % (name, s))
                scratch = os.path.join(tmp, "w_%s_%d" % (name, s))
                os.makedirs(scratch)
                e = dict(env, VERIF_SCRATCH=scratch, TMPDIR=scratch)
                log = open(os.path.join(tmp, "log_%s_%d" % (name, s)), "wb")
                left = max(5.0, min(budget, t0 + budget - time.time()))
                p = subprocess.Popen(
                    [PY, HARNESS, "worker", prop, name, str(s), str(shards), tier, str(seed), str(left), out],
                    env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                    start_new_session=True,
                )
                procs[p] = (name, s, out, log)
            time.sleep(0.02)
            for p in list(procs):
                if p.poll() is None:
                    continue
                name, s, out, log = procs.pop(p)
                log.close()
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                if os.path.exists(out):
                    with open(out) as f:
                        results.append(json.load(f))
                else:
                    with open(log.name, errors="replace") as f:
                        errors.append("worker %s/%d ended with %s\n%s" % (name, s, p.returncode, f.read()[-3000:]))
            if time.time() > hard:
                errors.append("out of time: %s" % [v[:2] for v in procs.values()])
                break
        errors += ["%s/%d: %s" % (r["sub"], r["shard"], r["error"]) for r in results if r.get("error")]
        fails = [r for r in results if r.get("fail")]
        fails.sort(key=lambda r: ([t[0] for t in info["subs"]].index(r["sub"]), r["shard"]))
        cov = coverage(info, results)
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": info["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fails),
        }
        with open(evidence + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(evidence + ".tmp", evidence)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
              % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        for k in known_findings(prop):
            n = cov["excluded"].get("known:" + k["id"], 0)
            if n:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if fails:
            for r in fails:
                rep = dict(r["fail"], property=prop, sub=r["sub"], shard=r["shard"], tier=tier, seed=seed)
                d = os.path.join(HERE, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s-%d.json" % (prop, r["sub"], r["shard"]))
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1)
                print("%s/%s: %s\n  case: %.1500s" % (prop, r["sub"], rep["msg"], json.dumps(rep["case"])))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            print("CHECK ERROR %s\n%s" % (prop, "\n".join(errors)))
            return 2
        return 0
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def coverage(info, results):
    al, non, labels, excl, samples, subs = set(), set(), {}, {}, [], {}
    ev = calls = skipped = 0
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        if "evaluations" not in r:
            continue
        ev += r["evaluations"]
        calls += r["sut_calls"]
        skipped += r["skipped_for_time"]
        al |= {r["sub"] + h for h in r["all"]}
        non |= {r["sub"] + h for h in r["nontrivial"]}
        for k, v in r["labels"].items():
            labels[r["sub"] + "/" + k] = labels.get(r["sub"] + "/" + k, 0) + v
        for k, v in r["excluded"].items():
            excl[k] = excl.get(k, 0) + v
        if r["shard"] == 0:
            samples += [{"sub": r["sub"], "case": c} for c in r["samples"][-2:]]
        s = subs.setdefault(r["sub"], {"cases": 0, "distinct": set(), "nontrivial": set(), "cpu_s": 0.0})
        s["cases"] += r["evaluations"]
        s["distinct"] |= set(r["all"])
        s["nontrivial"] |= set(r["nontrivial"])
        s["cpu_s"] += r["cpu_s"]
    for s in subs.values():
        s["distinct"] = len(s["distinct"])
        s["nontrivial"] = len(s["nontrivial"])
        s["cpu_s"] = round(s["cpu_s"], 1)
    return {
        "evaluations": ev,
        "distinct_nontrivial": len(non),
        "rule": info["rule"],
        "samples": samples,
        "distinct_cases": len(al),
        "calls_into_code_under_test": calls,
        "skipped_for_time": skipped,
        "per_sub": subs,
        "classes": dict(sorted(labels.items())),
        "excluded": excl,
    }


def replay(path):
    tmp = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        env = environment(tmp)
        with open(path) as f:
            rep = json.load(f)
        out = os.path.join(tmp, "out.json")
        scratch = os.path.join(tmp, "w")
        os.makedirs(scratch)
        env.update(VERIF_SCRATCH=scratch, TMPDIR=scratch)
        p = subprocess.run([PY, HARNESS, "replay", os.path.abspath(path), out], env=env, cwd=scratch,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            print("replay failed:\n" + p.stdout[-4000:])
            return 2
        with open(out) as f:
            res = json.load(f)
        if res["violation"] is None:
            # The violation may need the history of the cases before it in the same process.
            print("single case passes; running the whole shard again")
            scratch = os.path.join(tmp, "w2")
            os.makedirs(scratch)
            env.update(VERIF_SCRATCH=scratch, TMPDIR=scratch)
            out = os.path.join(tmp, "out2.json")
            subprocess.run([PY, HARNESS, "worker", rep["property"], rep["sub"], str(rep["shard"]), str(rep["nshards"]),
                            rep["tier"], str(rep["seed"]), "3000", out], env=env, cwd=scratch, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(out) as f:
                r = json.load(f)
            res = {"violation": r["fail"] and r["fail"]["msg"], "how": "whole shard"}
        if res["violation"]:
            print("%s (%s)" % (res["violation"], res["how"]))
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run(a.prop, a.tier, a.seed, a.sub))
