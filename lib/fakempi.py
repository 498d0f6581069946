"""
A simulated MPI for property-based testing.

Every rank is a process of its own (with its own hash seed). Inside it a stand-in for
mpi4py forwards each communication call to a hub in the harness process. The hub
implements the semantics of MPI, decides (from a drawn seed) in which order calls
complete, and detects exactly

  * deadlocks (every rank waits and nothing can complete),
  * collective calls that do not match over the ranks (operation, root, sizes),
  * messages that are never received and collectives in which some rank never takes part.

The package under test is imported anew for every run, so that its module-level
`comm`, `rank` and `ranks` are those of the simulated communicator.
"""

import importlib
import os
import pickle
import random
import signal
import subprocess
import sys
import time
import traceback
import types
from multiprocessing.connection import Connection, wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class MPIViolation(Exception):
    """The ranks do not communicate correctly."""


# ---------------------------------------------------------------------------
# Inside a rank
# ---------------------------------------------------------------------------


class Op:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "MPI." + self.name


SUM, PROD, MAX, MIN, LAND, LOR = Op("SUM"), Op("PROD"), Op("MAX"), Op("MIN"), Op("LAND"), Op("LOR")


def combine(name, x, y):
    import numpy as np

    arrays = isinstance(x, np.ndarray) or isinstance(y, np.ndarray)
    if name == "SUM":
        return x + y
    if name == "PROD":
        return x * y
    if name == "MAX":
        return np.maximum(x, y) if arrays else max(x, y)
    if name == "MIN":
        return np.minimum(x, y) if arrays else min(x, y)
    if name == "LAND":
        return np.logical_and(x, y) if arrays else (x and y)
    if name == "LOR":
        return np.logical_or(x, y) if arrays else (x or y)
    raise NotImplementedError("reduction operation %s" % name)


ANY_SOURCE, ANY_TAG, PROC_NULL = -1, -1, -2
UNDEFINED, COMM_NULL = -32766, None
IN_PLACE = type("InPlace", (), {"__repr__": lambda s: "MPI.IN_PLACE"})()


class Datatype:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "MPI." + self.name


class Status:
    def __init__(self):
        self.source, self.tag = -1, -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, fn=None):
        self.fn, self.done, self.value = fn, fn is None, None

    def wait(self, status=None):
        if not self.done:
            self.value, self.done = self.fn(), True
        return self.value

    Wait = wait

    def test(self, status=None):
        return True, self.wait()

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]

    Waitall = waitall


def spec(x):
    """(array, counts, displacements) of an MPI buffer specification: array, [array, type],
    [array, counts, type], [array, (counts, displacements), type], [array, counts, displacements, type]."""
    import numpy as np

    counts = displs = None
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray):
        rest = [y for y in x[1:] if not isinstance(y, Datatype) and y is not None]
        x = x[0]
        if len(rest) == 1 and isinstance(rest[0], (list, tuple)) and len(rest[0]) == 2 and not np.isscalar(rest[0][0]):
            rest = list(rest[0])
        if rest and not np.isscalar(rest[0]):
            counts = [int(c) for c in rest[0]]
            displs = [int(c) for c in rest[1]] if len(rest) > 1 else None
    if not isinstance(x, np.ndarray):
        raise TypeError("buffer argument is not a numpy array: %r" % (type(x),))
    if not (x.flags["C_CONTIGUOUS"] or x.flags["F_CONTIGUOUS"]):
        raise ValueError("ndarray is not contiguous")
    return x, counts, displs


def buf(x):
    """The numpy array behind an MPI buffer specification."""
    return spec(x)[0]


def flat(x):
    """A one-dimensional view of the array in the order of the memory."""
    return x.reshape(-1, order="A")


class Comm:
    def __init__(self, conn, ctx, world_rank):
        self._conn, self._ctx = conn, ctx
        self._group = ctx[1]
        self._world = world_rank
        self.rank, self.size = self._group.index(world_rank), len(self._group)
        self._dups = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _ask(self, *msg):
        self._conn.send_bytes(pickle.dumps(msg, -1))
        kind, value = pickle.loads(self._conn.recv_bytes())
        if kind == "stop":
            raise SystemExit("stopped by the hub")
        return value

    def _coll(self, name, root, payload, meta=None):
        if root is not None:
            if not 0 <= int(root) < self.size:
                raise ValueError("%s with root %r" % (name, root))
            root = self._group[root]
        return self._ask("coll", self._ctx, name, root, payload, meta)

    def _mine(self, sendbuf, recvbuf):
        if sendbuf is not IN_PLACE:
            return buf(sendbuf)
        return self._slices(recvbuf)[self.rank]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotImplementedError("communicator method %s" % name)

    def _to_world(self, r):
        return r if r < 0 else self._group[r] if r < self.size else -99

    # -- object collectives --
    def bcast(self, obj=None, root=0):
        r = self._coll("bcast", root, pickle.dumps(obj, -1) if self.rank == root else None)
        return obj if self.rank == root else pickle.loads(r)

    def gather(self, sendobj, root=0):
        r = self._coll("gather", root, pickle.dumps(sendobj, -1))
        return [pickle.loads(x) for x in r] if self.rank == root else None

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._coll("allgather", None, pickle.dumps(sendobj, -1))]

    def scatter(self, sendobj=None, root=0):
        p = None
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
            p = [pickle.dumps(x, -1) for x in sendobj]
        return pickle.loads(self._coll("scatter", root, p))

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
        r = self._coll("alltoall", None, [pickle.dumps(x, -1) for x in sendobj])
        return [pickle.loads(x) for x in r]

    def _fold(self, op, parts):
        parts = [pickle.loads(x) for x in parts]
        out = parts[0]
        for x in parts[1:]:
            out = combine(op.name, out, x) if isinstance(op, Op) else op(out, x)
        return out

    def reduce(self, sendobj, op=SUM, root=0):
        r = self._coll("reduce", root, pickle.dumps(sendobj, -1), getattr(op, "name", "?"))
        return self._fold(op, r) if self.rank == root else None

    def allreduce(self, sendobj, op=SUM):
        return self._fold(op, self._coll("allreduce", None, pickle.dumps(sendobj, -1), getattr(op, "name", "?")))

    def scan(self, sendobj, op=SUM):
        r = self._coll("scan", None, pickle.dumps(sendobj, -1), getattr(op, "name", "?"))
        return self._fold(op, r[: self.rank + 1])

    def exscan(self, sendobj, op=SUM):
        r = self._coll("exscan", None, pickle.dumps(sendobj, -1), getattr(op, "name", "?"))
        return self._fold(op, r[: self.rank]) if self.rank else None

    def barrier(self):
        self._coll("barrier", None, None)

    Barrier = barrier

    # -- buffer collectives --
    def Bcast(self, b, root=0):
        x = buf(b)
        r = self._coll("Bcast", root, pickle.dumps(x, -1) if self.rank == root else None, x.nbytes)
        if self.rank != root:
            y = pickle.loads(r)
            flat(x)[...] = flat(y).view(x.dtype)

    def _sendpart(self, s, r):
        return buf(r) if s is IN_PLACE else buf(s)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        s = self._sendpart(sendbuf, recvbuf)
        parts = self._coll("Reduce", root, pickle.dumps(s, -1), (s.nbytes, str(s.dtype), op.name))
        if self.rank == root:
            self._store(recvbuf, self._fold(op, parts))

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s = self._sendpart(sendbuf, recvbuf)
        parts = self._coll("Allreduce", None, pickle.dumps(s, -1), (s.nbytes, str(s.dtype), op.name))
        self._store(recvbuf, self._fold(op, parts))

    def _store(self, recvbuf, y):
        x = buf(recvbuf)
        if x.nbytes < y.nbytes or x.dtype != y.dtype:
            raise ValueError("receive buffer %s %s too small or of other type than %s %s" % (x.shape, x.dtype, y.shape, y.dtype))
        flat(x)[: y.size] = flat(y)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        import numpy as np

        s = self._mine(sendbuf, recvbuf)
        parts = self._coll("Gather", root, pickle.dumps(s, -1), (s.nbytes, str(s.dtype)))
        if self.rank == root:
            self._store(recvbuf, np.concatenate([flat(pickle.loads(x)) for x in parts]))

    def Allgather(self, sendbuf, recvbuf):
        import numpy as np

        s = self._mine(sendbuf, recvbuf)
        parts = self._coll("Allgather", None, pickle.dumps(s, -1), (s.nbytes, str(s.dtype)))
        self._store(recvbuf, np.concatenate([flat(pickle.loads(x)) for x in parts]))

    def _spread(self, recvbuf, parts):
        x, counts, displs = spec(recvbuf)
        x = flat(x)
        at = 0
        for k, y in enumerate(parts):
            y = flat(y)
            if counts is not None and counts[k] != y.size:
                raise ValueError("%d elements arrive from rank %d where %d are expected" % (y.size, k, counts[k]))
            if y.dtype != x.dtype:
                raise ValueError("%s elements received as %s" % (y.dtype, x.dtype))
            if displs is not None:
                at = displs[k]
            if at + y.size > x.size:
                raise ValueError("receive buffer too small")
            x[at : at + y.size] = y
            at += y.size

    def Gatherv(self, sendbuf, recvbuf=None, root=0):
        s = self._mine(sendbuf, recvbuf)
        parts = self._coll("Gatherv", root, pickle.dumps(s, -1), str(s.dtype))
        if self.rank == root:
            self._spread(recvbuf, [pickle.loads(x) for x in parts])

    def Allgatherv(self, sendbuf, recvbuf):
        s = self._mine(sendbuf, recvbuf)
        self._spread(recvbuf, [pickle.loads(x) for x in self._coll("Allgatherv", None, pickle.dumps(s, -1), str(s.dtype))])

    def _slices(self, sendbuf):
        x, counts, displs = spec(sendbuf)
        x = flat(x)
        if counts is None:
            if x.size % self.size:
                raise ValueError("%d elements for %d ranks" % (x.size, self.size))
            counts = [x.size // self.size] * self.size
        if displs is None:
            displs = [sum(counts[:k]) for k in range(self.size)]
        if max(d + c for c, d in zip(counts, displs)) > x.size:
            raise ValueError("send buffer too small")
        return [x[d : d + c] for c, d in zip(counts, displs)]

    def Scatterv(self, sendbuf, recvbuf, root=0):
        p = [pickle.dumps(x, -1) for x in self._slices(sendbuf)] if self.rank == root else None
        self._store(recvbuf, pickle.loads(self._coll("Scatterv", root, p)))

    Scatter = Scatterv

    def Alltoall(self, sendbuf, recvbuf):
        r = self._coll("Alltoall", None, [pickle.dumps(x, -1) for x in self._slices(sendbuf)])
        self._spread(recvbuf, [pickle.loads(x) for x in r])

    Alltoallv = Alltoall

    # -- point to point --
    def send(self, obj, dest, tag=0):
        if dest == PROC_NULL:
            return
        self._ask("send", self._ctx, self._to_world(int(dest)), int(tag), pickle.dumps(obj, -1), "obj", False)

    def ssend(self, obj, dest, tag=0):
        self._ask("send", self._ctx, self._to_world(int(dest)), int(tag), pickle.dumps(obj, -1), "obj", True)

    def isend(self, obj, dest, tag=0):
        self._ask("send", self._ctx, self._to_world(int(dest)), int(tag), pickle.dumps(obj, -1), "obj", None)
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = self._ask("recv", self._ctx, self._to_world(int(source)), int(tag), "obj")
        if status is not None:
            status.source, status.tag = self._group.index(src), t
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(buf, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(recvbuf, source, recvtag, status)

    def Send(self, b, dest, tag=0):
        self._ask("send", self._ctx, self._to_world(int(dest)), int(tag), pickle.dumps(buf(b), -1), "buf", False)

    def Isend(self, b, dest, tag=0):
        self._ask("send", self._ctx, self._to_world(int(dest)), int(tag), pickle.dumps(buf(b), -1), "buf", None)
        return Request()

    def Recv(self, b, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = self._ask("recv", self._ctx, self._to_world(int(source)), int(tag), "buf")
        if status is not None:
            status.source, status.tag = self._group.index(src), t
        self._store(b, pickle.loads(data))

    def Irecv(self, b, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(b, source, tag))

    # -- the rest --
    def Dup(self, *a):
        self._dups += 1
        self._coll("Dup", None, None)
        return Comm(self._conn, (self._ctx[0] + (self._dups,), self._group), self._world)

    dup = Clone = Dup

    def Split(self, color=0, key=0):
        self._dups += 1
        every = [pickle.loads(x) for x in self._coll("Split", None, pickle.dumps((color, key, self._world), -1))]
        if color == UNDEFINED:
            return COMM_NULL
        group = tuple(w for _, _, w in sorted((k, i, w) for i, (c, k, w) in enumerate(every) if c == color))
        return Comm(self._conn, (self._ctx[0] + (self._dups, color), group), self._world)

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise RuntimeError("MPI Abort(%r)" % (errorcode,))


def install(conn, rank, size):
    """Make `from mpi4py import MPI` give the simulated one and forget the package under test."""
    for k in [k for k in sys.modules if k.split(".")[0] in ("impurityModel", "mpi4py")]:
        del sys.modules[k]
    mpi = types.ModuleType("mpi4py.MPI")
    names = "SUM PROD MAX MIN LAND LOR ANY_SOURCE ANY_TAG PROC_NULL IN_PLACE UNDEFINED COMM_NULL Status Request Comm Datatype"
    for k in names.split():
        setattr(mpi, k, globals()[k])
    mpi.Intracomm = Comm
    mpi.COMM_WORLD = Comm(conn, ((), tuple(range(size))), rank)
    mpi.COMM_SELF = Comm(conn, (("self",), (rank,)), rank)
    for k in ("BOOL", "C_BOOL", "BYTE", "CHAR", "INT", "LONG", "INT32_T", "INT64_T", "FLOAT", "DOUBLE", "COMPLEX", "DOUBLE_COMPLEX"):
        setattr(mpi, k, Datatype(k))
    for k in ("C_DOUBLE_COMPLEX", "UNSIGNED", "UNSIGNED_LONG", "SHORT", "UINT8_T", "UINT64_T"):
        setattr(mpi, k, Datatype(k))
    mpi.Wtime = time.time
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi


def rank_main(fd):
    import resource
    import warnings

    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    conn = Connection(fd)
    # Everything heavy is imported once; every run happens in a child of its own, so that all
    # ranks have the same history (e.g. the random numbers of ARPACK), as in a real MPI job.
    import h5py  # noqa: F401
    import numpy  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import sympy.physics.wigner  # noqa: F401

    while True:
        try:
            msg = pickle.loads(conn.recv_bytes())
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            one_run(conn, *msg[1:])
            os._exit(0)
        os.waitpid(pid, 0)


def one_run(conn, modname, fname, payload, rank, size):
    install(conn, rank, size)
    try:
        fn = getattr(importlib.import_module(modname), fname)
        out = ("done", pickle.dumps(fn(payload), -1))
    except BaseException as e:
        from lib import harness

        if isinstance(e, harness.Violation):
            out = ("violation", str(e))
        else:
            ours = not harness.in_repo(e.__traceback__)
            out = ("exc", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])), ours)
    try:
        conn.send_bytes(pickle.dumps(out, -1))
    except BrokenPipeError:
        pass


# ---------------------------------------------------------------------------
# The hub
# ---------------------------------------------------------------------------


class Pool:
    """Processes for n ranks, and more when a calculation asks for them."""

    def __init__(self, n, salt=0):
        self.n, self.salt, self.procs = n, salt, []

    def start(self, n):
        from multiprocessing import Pipe

        for r in range(len(self.procs), n):
            a, b = Pipe()
            env = dict(os.environ)
            env["PYTHONHASHSEED"] = str(1000 * (self.salt % 1000) + 7 * r + 1)
            p = subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), str(b.fileno())],
                env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )  # fmt: skip
            b.close()
            self.procs.append((p, a))

    def stop(self):
        for p, a in self.procs:
            try:
                p.kill()
            except OSError:
                pass
            a.close()
        for p, _ in self.procs:
            p.wait()
        self.procs = []

    def run(self, module, function, payload, size, seed=0, sync=False, rendezvous=False, timeout=150):
        """List of the values returned by every rank. Raises MPIViolation."""
        self.start(max(size, self.n))
        ok = False
        try:
            res = Hub(self, size, seed, sync, rendezvous, timeout).run(module, function, payload)
            ok = True
            return res
        finally:
            if not ok:
                self.stop()


TO_ROOT = ("reduce", "gather", "Reduce", "Gather", "Gatherv")
FROM_ROOT = ("bcast", "Bcast", "scatter", "Scatterv")


class Hub:
    def __init__(self, pool, size, seed, sync, rendezvous, timeout):
        self.conns = [pool.procs[r][1] for r in range(size)]
        self.size, self.rng, self.sync, self.rendezvous = size, random.Random(seed), sync, rendezvous
        self.timeout = timeout
        self.colls = {}  # (ctx, index) -> {"name","root","meta","in":{rank: payload}}
        self.count = [{} for _ in range(size)]  # rank -> ctx -> number of collective calls
        self.waiting = [None] * size  # rank -> pending call
        self.mail = []  # [src, dst, ctx, tag, data, kind, sender waits]
        self.result = [None] * size
        self.ops = 0

    def describe(self):
        out = []
        for r in range(self.size):
            if self.result[r] is not None:
                out.append("rank %d has finished" % r)
            else:
                w = self.waiting[r]
                out.append("rank %d waits in %s" % (r, w["text"] if w else "(running)"))
        return "; ".join(out)

    def run(self, module, function, payload):
        for r, c in enumerate(self.conns):
            c.send_bytes(pickle.dumps(("run", module, function, payload, r, self.size), -1))
        running = set(range(self.size))
        t0 = time.monotonic()
        while True:
            while running:
                ready = wait([self.conns[r] for r in running], timeout=max(0.01, self.timeout - (time.monotonic() - t0)))
                if not ready:
                    raise MPIViolation("no result after %d s: %s" % (self.timeout, self.describe()))
                for r in [r for r in list(running) if self.conns[r] in ready]:
                    try:
                        msg = pickle.loads(self.conns[r].recv_bytes())
                    except (EOFError, OSError):
                        raise MPIViolation("rank %d died" % r) from None
                    running.discard(r)
                    self.take(r, msg)
            # every rank waits or has finished
            if all(x is not None for x in self.result):
                break
            enabled = [r for r in range(self.size) if self.waiting[r] and self.possible(r)]
            if not enabled:
                bad = [x for x in self.result if x is not None and x[0] != "done"]
                if bad:
                    self.report()
                raise MPIViolation("deadlock: " + self.describe())
            if self.rng.random() < 0.5:
                pick = [r for r in enabled if self.rng.random() < 0.6] or [self.rng.choice(enabled)]
            else:
                pick = enabled
            self.rng.shuffle(pick)
            for r in pick:
                if self.waiting[r] and self.possible(r):
                    value = self.complete(r)
                    self.waiting[r] = None
                    self.conns[r].send_bytes(pickle.dumps(("ok", value), -1))
                    running.add(r)
        self.report()
        if self.mail:
            m = self.mail[0]
            raise MPIViolation("%d message(s) never received, e.g. from rank %d to rank %d, tag %d" % (len(self.mail), m[0], m[1], m[3]))
        for (ctx, i), x in self.colls.items():
            if len(x["in"]) != len(ctx[1]):
                raise MPIViolation("only ranks %s took part in collective call number %d (%s)" % (sorted(x["in"]), i, x["name"]))
        return [pickle.loads(x[1]) for x in self.result]

    def report(self):
        from lib import harness

        for r, x in enumerate(self.result):
            if x is not None and x[0] == "violation":
                raise MPIViolation("rank %d: %s" % (r, x[1]))
        for r, x in enumerate(self.result):
            if x is not None and x[0] == "exc":
                if x[2] and "NotImplemented" in x[1]:
                    raise harness.HarnessError("rank %d: %s" % (r, x[1]))
                raise MPIViolation("rank %d raised %s" % (r, x[1]))

    def take(self, r, msg):
        self.ops += 1
        if msg[0] in ("done", "exc", "violation"):
            self.result[r] = msg
            return
        if msg[0] == "coll":
            _, ctx, name, root, payload, meta = msg
            i = self.count[r].get(ctx, 0)
            self.count[r][ctx] = i + 1
            x = self.colls.setdefault((ctx, i), {"name": name, "root": root, "meta": meta, "in": {}, "first": r})
            if (x["name"], x["root"]) != (name, root):
                raise MPIViolation(
                    "collective calls do not match: call number %d is %s(root=%s) on rank %d but %s(root=%s) on rank %d"
                    % (i, x["name"], x["root"], x["first"], name, root, r)
                )
            if x["meta"] != meta:
                raise MPIViolation(
                    "%s call number %d: buffers or operations differ: %s on rank %d, %s on rank %d"
                    % (name, i, x["meta"], x["first"], meta, r)
                )
            x["in"][r] = payload
            self.waiting[r] = {"kind": "coll", "key": (ctx, i), "text": "%s(root=%s), collective call number %d" % (name, root, i)}
        elif msg[0] == "send":
            _, ctx, dest, tag, data, kind, how = msg
            if not 0 <= dest < self.size:
                raise MPIViolation("rank %d sends to rank %d" % (r, dest))
            blocking = how is True or (how is False and self.rendezvous)
            m = [r, dest, ctx, tag, data, kind, blocking]
            self.mail.append(m)
            self.waiting[r] = {"kind": "send", "mail": m, "text": "send(dest=%d, tag=%d)" % (dest, tag)}
        elif msg[0] == "recv":
            _, ctx, source, tag, kind = msg
            if not -1 <= source < self.size:
                raise MPIViolation("rank %d receives from rank %d" % (r, source))
            self.waiting[r] = {
                "kind": "recv", "ctx": ctx, "source": source, "tag": tag, "type": kind,
                "text": "recv(source=%d, tag=%d)" % (source, tag),
            }  # fmt: skip

    def candidates(self, r):
        w = self.waiting[r]
        seen, out = set(), []
        for m in self.mail:
            if m[1] == r and m[2] == w["ctx"] and w["source"] in (-1, m[0]) and w["tag"] in (-1, m[3]):
                if m[0] not in seen:  # messages do not overtake each other
                    seen.add(m[0])
                    out.append(m)
        return out

    def possible(self, r):
        w = self.waiting[r]
        if w["kind"] == "send":
            return not w["mail"][6] or not any(m is w["mail"] for m in self.mail)
        if w["kind"] == "recv":
            return bool(self.candidates(r))
        x = self.colls[w["key"]]
        everyone = len(x["in"]) == len(w["key"][0][1])
        if self.sync or everyone:
            return everyone
        if x["name"] in FROM_ROOT:
            return x["root"] in x["in"]
        if x["name"] in TO_ROOT:
            return r != x["root"]
        return False

    def complete(self, r):
        w = self.waiting[r]
        if w["kind"] == "send":
            return None
        if w["kind"] == "recv":
            m = self.rng.choice(self.candidates(r))
            self.mail = [k for k in self.mail if k is not m]
            if m[5] != w["type"]:
                raise MPIViolation("object and buffer communication mixed between rank %d and rank %d" % (m[0], r))
            return (m[0], m[3], m[4])
        x = self.colls[w["key"]]
        name, root = x["name"], x["root"]
        if name in ("bcast", "Bcast"):
            return None if r == root else x["in"][root]
        group = w["key"][0][1]
        if name in ("scatter", "Scatterv"):
            return x["in"][root][group.index(r)]
        if name in ("alltoall", "Alltoall"):
            return [x["in"][k][group.index(r)] for k in group]
        if name in TO_ROOT and r != root:
            return None
        if name in ("barrier", "Dup"):
            return None
        return [x["in"][k] for k in group]


if __name__ == "__main__":
    import glob

    sys.path[0] = HERE
    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        sys.path.append(p)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import lib.fakempi

    lib.fakempi.rank_main(int(sys.argv[1]))
