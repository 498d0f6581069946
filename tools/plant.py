#!/usr/bin/env python3
"""
Make the planted bugs of /verif/seeded from definitions in a Python file.

plant.py DEFS.py [ID...]   DEFS.py defines BUGS, a list of dicts with the keys
    id, prop, edits [(file, old, new), ...], demo (Python source), needs, breaks
    and optionally extra {name: source path} (files which lie beside the demo).

For each bug: a scratch copy of /repo gets the edits; the stable tests have to
pass in it, the demo has to pass on an unchanged copy and fail on the changed
one; at least one changed line has to be of the original repository. Then the
folder in /verif/seeded is written, and the check of the property is run
against the copy.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "71876d7"
DEMO_SH = """#!/bin/bash
# Run with the working directory /repo, after the build.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_ess_singleton_isolated=1
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch"
cp "$here"/*.py "$scratch"/
cd "$scratch"
timeout 280 /opt/venv/bin/python demo.py
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))


def demo(folder, copy):
    return sh("bash %s/demo.sh" % folder, cwd=copy)


LOCKS = {}


def one(bug, clean, check=True):
    scratch = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    log = []
    try:
        copy = os.path.join(scratch, "repo")
        sh("cp -a /repo %s" % copy)
        for f, old, new in bug["edits"]:
            path = os.path.join(copy, "impurityModel", f)
            s = open(path).read()
            if s.count(old) != 1:
                return bug["id"], "BAD EDIT (%d times): %r" % (s.count(old), old[:80])
            open(path, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        # A removed line has to be of the original repository.
        original = False
        for f in sorted({f for f, _, _ in bug["edits"]}):
            blame = sh("git blame -s -l HEAD -- impurityModel/" + f, cwd=copy).stdout.splitlines()
            base = sh("git rev-parse " + BASE, cwd=copy).stdout.strip()
            sides = sh("git diff -U0 -- impurityModel/" + f, cwd=copy).stdout.splitlines()
            for line in sides:
                if line.startswith("@@"):
                    part = line.split()[1][1:].split(",")
                    start, n = int(part[0]), int(part[1]) if len(part) > 1 else 1
                    if any(base[:30] in b.split()[0] or b.startswith("^") for b in blame[start - 1 : start - 1 + n]):
                        original = True
        if not original:
            return bug["id"], "NO ORIGINAL LINE"
        env = dict(
            os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
            OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_ess_singleton_isolated="1",
            OMP_NUM_THREADS="1",
        )
        r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -3", cwd=copy, env=env)
        if "31 passed" not in r.stdout or "failed" in r.stdout:
            return bug["id"], "TESTS: " + r.stdout
        folder = os.path.join(scratch, "demo")
        os.makedirs(folder)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        for name, src in bug.get("extra", {}).items():
            shutil.copy(src, os.path.join(folder, name))
        r = demo(folder, clean)
        if r.returncode != 0:
            return bug["id"], "DEMO FAILS CLEAN: " + r.stdout[-300:] + r.stderr[-600:]
        r = demo(folder, copy)
        if r.returncode == 0:
            return bug["id"], "DEMO PASSES WITH BUG " + r.stdout[-300:]
        log.append("demo: " + (r.stderr.strip().splitlines() or ["?"])[-1][:100])
        out = os.path.join(HERE, "seeded", bug["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(folder, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(
            {"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
            open(os.path.join(out, "meta.json"), "w"), indent=1,
        )
        if check:
            with LOCKS.setdefault(bug["prop"], threading.Lock()):
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1")
                r = sh("timeout 900 python3 %s/check.py %s" % (HERE, bug["prop"]), env=env)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            log.append("check: rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and lines else "MISSED"))
        return bug["id"], " | ".join(log)
    finally:
        shutil.rmtree(scratch)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    names = sys.argv[2:]
    clean = tempfile.mkdtemp(prefix="plant-clean-", dir="/tmp")
    try:
        sh("cp -a /repo %s/repo" % clean)
        with ThreadPoolExecutor(3) as pool:
            for name, res in pool.map(
                lambda b: one(b, clean + "/repo"), [b for b in bugs if not names or b["id"] in names]
            ):
                print(name, res, flush=True)
    finally:
        shutil.rmtree(clean)


main()
