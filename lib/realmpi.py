"""
Runs calculations of lib/mpitasks.py with the real MPI library (a cross-check of the simulated one).

As a program (started by mpirun on every rank): realmpi.py IN OUT
"""

import os
import pickle
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mpirun(size, argv, timeout, cwd):
    """Return code, or None if it had to be ended."""
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1")
    p = subprocess.Popen(
        ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(size), sys.executable] + argv,
        env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
    )  # fmt: skip
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.terminate()
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        return None


def available():
    """Can this machine start two ranks at all?"""
    if shutil.which("mpirun") is None:
        return False
    code = "from mpi4py import MPI; c = MPI.COMM_WORLD; assert c.size == 2 and c.allreduce(c.rank) == 1"
    return mpirun(2, ["-c", code], 60, tempfile.gettempdir()) == 0


def run(size, calls, timeout):
    """calls: [(function, payload)] -> (return code or None, per call: list of the ranks' (ok, value))"""
    d = tempfile.mkdtemp(prefix="realmpi_")
    try:
        with open(os.path.join(d, "in"), "wb") as f:
            pickle.dump(calls, f, -1)
        rc = mpirun(size, [os.path.abspath(__file__), os.path.join(d, "in"), os.path.join(d, "out")], timeout, d)
        out = [[] for _ in calls]
        for r in range(size):
            try:
                with open(os.path.join(d, "out%d" % r), "rb") as f:
                    while True:
                        k, x = pickle.load(f)
                        out[k].append(x)
            except (OSError, EOFError):
                pass
        return rc, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import glob
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        sys.path.append(p)
    from mpi4py import MPI

    from lib import mpitasks

    with open(sys.argv[1], "rb") as f:
        todo = pickle.load(f)
    sys.stdout = open(os.devnull, "w")
    with open(sys.argv[2] + str(MPI.COMM_WORLD.rank), "wb") as f:
        for k, (function, payload) in enumerate(todo):
            try:
                x = True, getattr(mpitasks, function)(payload)
            except Exception as e:
                x = False, "%s: %s" % (type(e).__name__, e)
            f.write(pickle.dumps((k, x), -1))
            f.flush()
            if not x[0]:
                MPI.COMM_WORLD.Abort(3)
