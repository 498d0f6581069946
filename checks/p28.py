"""P28 Calculations are repeatable and do not disturb their inputs."""

import copy
import io
import json
import os
import pickle
import random
import shutil
import struct
import sys
import contextlib
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref, systems
from lib.harness import HarnessError, Sub, deep_equal

PROP = "P28"
RULE = (
    "Histories of 4-15 calculations (nearly every public function: product states, ladder operators, operator algebra, Hamiltonians and "
    "their files, bases, matrices, eigenstates, observables, transition operators, Green's functions, spectra, RIXS, thermal averages, "
    "simulate_spectra) act on one pool of shared objects, which is edited in place between the calls and grows by the results. Each result "
    "is compared with the one of the same call in a process that has calculated nothing else, each call is repeated after its result was "
    "overwritten, and all arguments and all earlier results are compared with copies. Non-trivial: at least three calculations, two of "
    "which share a function or an argument object."
)
ASSUMPTIONS = [
    "in/out arguments: opResult, h_dict, h_dict_ground, psi1 of addToFirst, total of allgather_dict, the bit array of create/remove.ubitarray",
    "stores (opResult, h_dict) are used with one operator, one set of restrictions and one n only",
    "eigenvectors are compared as projectors on complete groups of degenerate states, RIXS and whole simulations to 0.5 % (iterative solver), Green's functions and spectra to 1e-5",
]


# ---------------------------------------------------------------- the undisturbed process
class Fresh:
    """A server process, forked before anything was calculated; it forks once more for every request."""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a[1])
            os.close(b[0])
            self.serve(a[0], b[1])
            os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.out, self.inp = a[1], b[0]

    @staticmethod
    def read(fd, timeout=None):
        import select

        def exact(k):
            parts = []
            while k:
                if timeout and not select.select([fd], [], [], timeout)[0]:
                    raise TimeoutError()
                x = os.read(fd, min(k, 1 << 20))
                if not x:
                    return None
                parts.append(x)
                k -= len(x)
            return b"".join(parts)

        head = exact(8)
        return None if head is None else exact(struct.unpack("<Q", head)[0])

    @staticmethod
    def write(fd, data):
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(fd, data) :]

    def serve(self, fd_in, fd_out):
        while True:
            req = self.read(fd_in)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    out = outcome(*pickle.loads(req))
                except BaseException as e:
                    out = ("error", "%s: %s" % (type(e).__name__, e))
                self.write(fd_out, pickle.dumps(out, -1))
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, *req):
        self.write(self.out, pickle.dumps(req, -1))
        try:
            x = self.read(self.inp, 200)
        except TimeoutError:
            return ("error", "no result within 200 s")
        if x is None:
            raise HarnessError("the server process ended")
        return pickle.loads(x)


FRESH = None


def setup(ctx):
    global FRESH
    from impurityModel.ed import average, create, finite, get_spectra, get_spectra_using_CF, mpi_comm, product_state_representation, remove, spectra  # noqa

    FRESH = Fresh()


def resolve(name):
    mod, f = name.split(":")
    if mod == "here":
        return getattr(sys.modules[__name__], f)
    return getattr(sys.modules["impurityModel.ed." + mod], f)


def outcome(name, args, kwargs):
    """('ok', result, args, kwargs, stdout) of one call"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = resolve(name)(*args, **kwargs)
    return ("ok", res, args, kwargs, buf.getvalue())


def whole_simulation(args, kwargs):
    """simulate_spectra with its files, in a directory of its own"""
    import h5py

    from impurityModel.ed import spectra

    here = os.getcwd()
    d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p28_%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    try:
        h5 = h5py.File("spectra.h5", "w")
        a = list(args)
        a[20] = h5
        spectra.simulate_spectra(*a)
        out = {}
        with h5py.File("spectra.h5", "r") as f:
            for k in f:
                out[k] = f[k][()]
        for k in sorted(os.listdir(".")):
            if k.endswith(".dat"):
                with open(k) as f:
                    out[k] = np.array([[float(y) for y in l.split()] for l in f if not l.startswith("#")])
            elif k.endswith(".bin"):
                out[k] = np.fromfile(k, dtype=np.float32)
        return out
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the shared objects
class World:
    def __init__(self, c):
        rng = random.Random("world %d" % c["world"])
        self.nB = [OrderedDict([(1, 0), (2, c["nb"])]), OrderedDict([(2, c["nb"]), (1, 0)])][c["world"] % 7 == 0]
        self.lab = ref.layout(self.nB)
        self.n = n = len(self.lab)
        index = {x: i for i, x in enumerate(self.lab)}
        d = [index[x] for x in ref.shell_labels(2)]
        p = [index[x] for x in ref.shell_labels(1)]
        bath = [index[(2, b)] for b in range(c["nb"])]
        self.d, self.p, self.bath = d, p, bath
        self.nd = rng.choice([1, 9, 9, 1, 8])
        z = lambda: rng.choice([rng.uniform(-2, 2), complex(rng.uniform(-2, 2), rng.uniform(-2, 2)), rng.choice([1, -1, 0.5, 1j])])

        def herm(k, m):
            op = {}
            for _ in range(k):
                i, j = rng.choice([(d, d), (d, d + bath), (p, p), (d, d)])
                op[((rng.choice(i), "c"), (rng.choice(j), "a"))] = z()
            for _ in range(m):
                g = rng.choice([(d, d, d, d), (p, d, d, p), (d, p, d, p)])
                op[tuple((rng.choice(x), "c" if y < 2 else "a") for y, x in enumerate(g))] = z()
            op = gens.hermitian_part(op)
            for i in range(n):
                op[((i, "c"), (i, "a"))] = rng.uniform(-3, 3)
            return op

        def trans(k):
            return {((rng.choice(d), "c"), (rng.choice(p + d), "a")): z() for _ in range(k)}

        def state():
            psi = {}
            for _ in range(rng.randint(1, 4)):
                m = ref.mask_of(p + rng.sample(d, self.nd) + [b for b in bath if rng.random() < 0.5])
                psi[m] = complex(z()) * (1 if psi and rng.random() < 0.7 else rng.choice([1, 1, 0.03, 1e-3]))
            return ref.psi_out(systems.normalized(psi), n)

        self.H = [herm(rng.randint(1, 6), rng.randint(0, 3)) for _ in range(3)]
        self.T = [trans(rng.randint(1, 5)) for _ in range(3)]
        self.O = [{tuple((rng.randrange(n), rng.choice("ac")) for _ in range(rng.randint(1, 4))): z() for _ in range(rng.randint(1, 5))} for _ in range(2)]
        self.psi = [state() for _ in range(4)]
        self.groups = []  # (es, psis) with normalized states
        self.groups.append((np.array([rng.uniform(-0.2, 0.2) for _ in range(3)]), [state() for _ in range(3)]))
        self.bases = []
        for _ in range(3):
            ms = {ref.mask_of(p + rng.sample(d, self.nd) + [b for b in bath if rng.random() < 0.5]) for _ in range(rng.randint(1, 7))}
            self.bases.append(tuple(ref.enc(m, n) for m in sorted(ms)))
        self.R = [None, {frozenset(d): (self.nd - 1, self.nd + 1)}, {frozenset(d): (self.nd - 1, self.nd + 2), frozenset(bath): (0, len(bath))}]
        self.mesh = [np.linspace(-4, 6, 5), np.array([rng.uniform(-5, 5) for _ in range(3)]), np.linspace(0.5, 3, 4)]
        r = np.linspace(0.05, 2.5, 8)
        self.r = [r, np.linspace(0.1, 1.5, 6)]
        self.radial = [[x * np.exp(-x * k) for k in (1, 2.3)] for x in self.r]
        self.q = [[1, 0, 0.0], [0.3, -0.7, 0.2], np.array([0.0, 0.0, 2.0]), [-1.0, 1.0, 0.5]]
        self.eps = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1j, 0], [0.3, 0.2, -0.5]]
        self.slater = [[9.0, 0, 8.0, 0, 6.0], [20.0, 0, 8.0], [10.0, 0, 8.0], [0, 3.0, 0, 2.0]]
        self.slater2 = [(7.5, 0, 9.0, 0, 5.5), (0, 0, 0), (8.9, 0, 6.7), (0, 4.9, 0, 2.8)]
        self.soc = [[11.6, 0.1], [0.0, 0.4]]
        self.dcinfo = [[OrderedDict([(1, 6), (2, 8)]), 1.5], [OrderedDict([(1, 6), (2, 5)]), -0.5]]
        self.field = [[0, 0, 0.0001], (0.1, 0.2, -0.3)]
        self.stores = {}
        self.lists = {}
        self.files = {}

    def store(self, kind, i, j):
        return self.stores.setdefault((kind, i, j), {})

    def start(self, g):
        """One product state to start from; as a tuple or, shared with other calls, as a list"""
        b = g.choice(list(g.choice(self.psi)) or list(self.bases[0]))
        if g.random() < 0.5:
            return (b,)
        return self.lists.setdefault(b, [b])

    def file(self, kind, k):
        """Parameter files are made once per history."""
        name = "%s%d" % (kind, k)
        if name not in self.files:
            path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p28_%d_%s" % (os.getpid(), name))
            if kind == "cf":
                with open(path, "w") as f:
                    json.dump([{}, {"e_imp": -2.0, "v_val_eg": 1.1}][k], f)
            else:
                h0 = {(((2, s, m), "c"), ((2, s, m), "a")): 0.1 * m * m + k for s in range(2) for m in range(-2, 3)}
                with open(path, "wb") as f:
                    pickle.dump(h0, f)
            with open(path, "rb") as f:
                self.files[name] = (path, f.read())
        return self.files[name][0]


# ---------------------------------------------------------------- calls
# name -> builder(rng, world) -> dict(f=..., args=[...], kw={}, out={positions of in/out arguments}, store=True: position replaced when alone)
CALLS = {}


def call(weight=1):
    def deco(fn):
        CALLS[fn.__name__.strip("_")] = (fn, weight)
        return fn

    return deco


def C(f, *args, out=(), alone=None, tol=None, canon=None, keep=None, text=False, **kw):
    return {"f": f, "args": list(args), "kw": kw, "out": set(out), "alone": alone or {}, "tol": tol, "canon": canon, "keep": keep, "text": text}


def anyop(g, W):
    return g.choice(W.H + W.T + W.O)


@call(3)
def applyOp(g, W):
    k, j = g.randrange(8), g.randrange(3)
    op = (W.H + W.T + W.O)[k]
    psi = g.choice(W.psi)
    how = g.randrange(5)
    if how == 0:
        return C("finite:applyOp", W.n, op, psi, keep="psi")
    if how < 3:
        return C("finite:applyOp", W.n, op, psi, 1e-10, W.R[j], keep="psi")
    return C("finite:applyOp", W.n, op, psi, 1e-12, W.R[j], W.store("op", k, j), out=[5], alone={5: None}, keep="psi")


@call()
def inner(g, W):
    return C("finite:inner", g.choice(W.psi), g.choice(W.psi))


@call()
def norm2(g, W):
    return C("finite:norm2", g.choice(W.psi))


@call(2)
def add(g, W):
    if g.random() < 0.3:
        return C("finite:add", g.choice(W.psi), g.choice(W.psi), keep="psi")
    return C("finite:add", g.choice(W.psi), g.choice(W.psi), g.choice([1, -1, 0.5, 2j]), keep="psi")


@call(2)
def addToFirst(g, W):
    return C("finite:addToFirst", dict(g.choice(W.psi)), g.choice(W.psi), g.choice([1, -1, 0.5j]), out=[0])


@call()
def ladder(g, W):
    return C("finite:" + g.choice("ac"), W.n, g.randrange(W.n), g.choice(W.psi), keep="psi")


@call(2)
def daggerOp(g, W):
    return C("finite:daggerOp", anyop(g, W))


@call(2)
def addOps(g, W):
    return C("finite:addOps", [anyop(g, W) for _ in range(g.randint(1, 3))])


@call()
def assert_hermitian(g, W):
    return C("finite:assert_hermitian", g.choice(W.H))


@call(2)
def get_basis(g, W):
    nb = W.nB[2]
    nv = g.randint(0, nb)
    z = lambda x, y: OrderedDict((l, x if l == 1 else y) for l in W.nB)
    n0 = g.choice([1, 9])
    return C("finite:get_basis", W.nB, z(0, nv), z(0, g.randint(0, min(nv, 1))), z(0, g.randint(0, min(1, nb - nv))), z(0, g.randint(0, 1)), z(6, n0), canon=basis_, keep="basis")


def basis_(x):
    return sorted(x[1])


@call(3)
def eigensystem(g, W):
    b = g.choice(W.bases)[:120]
    full = g.random() < 0.7
    k = len(b) if full else g.randint(1, len(b))
    kw = {} if g.random() < 0.5 else {"slaterWeightMin": 0}
    return C("finite:eigensystem", W.n, g.choice(W.H), b, k, "full" if full or g.random() < 0.5 else "Lanczos", canon=eigen_, tol=1e-6, keep="group", **kw)


def eigen_(x):
    es, psis = x[1]
    es = np.asarray(es, dtype=float)
    proj, i = [], 0
    while i < len(es):
        j = i + 1
        while j < len(es) and es[j] - es[j - 1] < 1e-5:
            j += 1
        P = {}
        if j < len(es) or len(es) == len(x[2][2]):
            for psi in psis[i:j]:
                for k, a in psi.items():
                    for q, b in psi.items():
                        P[k, q] = P.get((k, q), 0) + a * np.conj(b)
        # weights below the cutoff come and go
        proj.append({k: v for k, v in P.items() if abs(v) > 1e-3})
        i = j
    return es, proj


@call(2)
def matrix(g, W):
    m = g.choice(["dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI", None])
    kw = {"mode": m} if m else {}
    return C("finite:get_hamiltonian_matrix", W.n, g.choice(W.H), g.choice(W.bases)[:120], keep="matrix", canon=lambda x: full_(x[1]), **kw)


def full_(h):
    return np.asarray(h.toarray() if hasattr(h, "toarray") else h)


@call(2)
def expand_basis(g, W):
    k, j = g.randrange(3), g.randrange(3)
    b = W.start(g)
    return C("finite:expand_basis", W.n, W.store("h", k, j), W.H[k], b, W.R[j], g.choice(["serial", "H_build"]), out=[1], alone={1: {}}, canon=lambda x: sorted(x[1]), keep="basis")


@call(3)
def expand_basis_and_hamiltonian(g, W):
    k, j = g.randrange(3), g.randrange(3)
    b = W.start(g)
    return C("finite:expand_basis_and_hamiltonian", W.n, W.store("h", k, j), W.H[k], b, W.R[j], g.choice(["serial", "H_build"]), out=[1], alone={1: {}}, canon=ham_)


def ham_(x):
    h, index = x[1]
    h, inv = full_(h), {i: s for s, i in index.items()}
    if sorted(inv) != list(range(len(h))):
        return "bad index map"
    return {(inv[i], inv[j]): h[i, j] for i, j in zip(*np.nonzero(np.abs(h) > 1e-11))}


@call(2)
def krylov(g, W):
    h = W.matrix if getattr(W, "matrix", None) is not None else np.diag([1.0, 2.0, 4.0]).astype(complex)
    import scipy.sparse

    if not hasattr(h, "toarray"):
        h = scipy.sparse.csr_matrix(h)
        W.matrix = h
    v = np.array([complex(1, i % 3) for i in range(h.shape[0])])
    v /= np.linalg.norm(v)
    return C("finite:get_tridiagonal_krylov_vectors", h, v, min(g.choice([4, 6]), h.shape[0]), mode=g.choice(["dense", "sparse"]), tol=1e-5)


@call()
def dc_MLFT(g, W):
    if g.random() < 0.5:
        return C("finite:dc_MLFT", g.choice([8, 5, 3]), 1.5, g.choice([W.slater[0], W.slater2[0]]), canon=lambda x: np.asarray(x[1]))
    s = g.choice([W.slater, W.slater2])
    return C("finite:dc_MLFT", g.choice([8, 5]), g.choice([0.5, 1.5]), s[0], 6, s[2], s[3], canon=lambda x: np.asarray(x[1]))


@call()
def cubic(g, W):
    kw = g.choice([{}, {"spinpol": True}, {"l": 1}, {"l": 2, "spinpol": False}])
    return C("finite:get_spherical_2_cubic_matrix", canon=lambda x: np.asarray(x[1]), **kw)


@call(2)
def gauntC(g, W):
    k, l, lp = g.choice([(2, 2, 2), (1, 1, 2), (3, 1, 2), (4, 2, 2), (1, 2, 1), (0, 2, 2), (2, 1, 1)])
    kw = {} if g.random() < 0.7 else {"prec": g.choice([3, 10, 16])}
    return C("finite:gauntC", k, l, g.randint(-l, l), lp, g.randint(-lp, lp), canon=lambda x: complex(x[1]), **kw)


@call(2)
def getU(g, W):
    l1, l2 = g.choice([(2, 2), (1, 2), (1, 1)])
    R = g.choice([W.slater[0], W.slater2[0], [1, 0, 2, 0, 3]]) if l1 == 2 else g.choice([W.slater[2], W.slater2[2]])
    m = [g.randint(-l, l) for l in (l1, l2, l2)]
    if g.random() < 0.7:
        m4 = m[0] + m[1] - m[2]
        if abs(m4) <= l1:
            m.append(m4)
    m = (m + [0])[:4]
    return C("finite:getU", l1, m[0], l2, m[1], l2, m[2], l1, m[3], R, canon=lambda x: complex(x[1]))


@call()
def Uop(g, W):
    l = g.choice([(1, 1, 1, 1), (1, 2, 2, 1), (1, 1, 1, 1)])
    R = g.choice([W.slater[1], W.slater2[2], [1.0, 0, 2.0]])
    return C("finite:" + g.choice(["getUop", "getNoSpinUop"]), *l, R)


@call(0.5)
def slater_condon(g, W):
    s = g.choice([W.slater, W.slater2])
    return C("finite:get2p3dSlaterCondonUop", Fdd=s[0], Fpp=s[1], Fpd=s[2], Gpd=s[3])


@call(2)
def getSOCop(g, W):
    return C("finite:getSOCop", g.choice([0.1, 11.6, 1]), *g.choice([(), (1,), (2,), (3,)]))


@call()
def gethHfieldop(g, W):
    return C("finite:gethHfieldop", *g.choice(W.field), *g.choice([(), (1,), (2,)]))


@call()
def c2i(g, W):
    return C("finite:c2i", W.nB, g.choice(W.lab))


@call()
def i2c(g, W):
    return C("finite:i2c", W.nB, g.randrange(W.n))


@call(3)
def static(g, W):
    f = g.choice(["getLz3d", "getSz3d", "getSsqr3d", "getLsqr3d", "getTraceDensityMatrix", "getDensityMatrixCubic", "getEgT2gOccupation"])
    return C("finite:" + f, W.nB, g.choice(W.psi))


@call(2)
def density(g, W):
    return C("finite:getDensityMatrix", W.nB, g.choice(W.psi), *g.choice([(), (1,), (2,)]))


@call(2)
def angular(g, W):
    f = g.choice(["applySz3d", "applyLz3d", "applySplus3d", "applyLplus3d", "applySminus3d", "applyLminus3d"])
    return C("finite:" + f, W.nB, g.choice(W.psi), keep="psi")


@call(2)
def printed(g, W):
    es, psis = g.choice(W.groups)
    if g.random() < 0.5:
        return C("finite:printExpValues", W.nB, es, psis, *g.choice([(), (1,)]), text=True)
    return C("finite:printThermalExpValues", W.nB, es, psis, *g.choice([(), (300,), (5000,), (50, 3)]), text=True)


@call(0.3)
def printGaunt(g, W):
    return C("finite:printGaunt", *g.choice([(), (1, 2), (1, 1)]), text=True)


@call(2)
def thermal(g, W):
    es, psis = g.choice(W.groups)
    x = np.arange(len(es) * 2.0).reshape(len(es), 2) if g.random() < 0.5 else [float(i) for i in range(len(es))]
    return C("average:thermal_average", es, x, *g.choice([(), (50,), (3000,)]))


@call(2)
def dipole(g, W):
    nB = OrderedDict((l, W.nB[l]) for l in (1, 2))
    f = g.choice(["getDipoleOperators", "getDaggeredDipoleOperators", "getDipoleOperator"])
    e = g.choice(W.eps) if f == "getDipoleOperator" else g.sample(W.eps, g.randint(1, 3))
    return C("spectra:" + f, nB, e, keep="T" if W.nB == nB and list(W.nB) == [1, 2] else None)


@call(2)
def nixs(g, W):
    i = g.randrange(2)
    li, lj = g.choice([(2, 2), (2, 2), (2, 1)])
    kw = g.choice([{}, {"kmin": 0}, {"kmin": 2}])
    if g.random() < 0.5:
        return C("spectra:getNIXSOperator", W.nB, g.choice(W.q), li, lj, W.radial[i][0], W.radial[i][g.randrange(2)], W.r[i], **kw)
    return C("spectra:getNIXSOperators", W.nB, g.sample(W.q, 2), li, lj, W.radial[i][0], W.radial[i][g.randrange(2)], W.r[i], keep="T", **kw)


@call()
def photo(g, W):
    return C("spectra:" + g.choice(["getInversePhotoEmissionOperators", "getPhotoEmissionOperators"]), W.nB, *g.choice([(), (1,), (2,)]), keep="T")


@call(3)
def getGreen(g, W):
    k, j = g.randrange(3), g.choice([0, 1])
    psi = g.choice(W.groups)[1]
    psi = g.choice(psi)
    if g.random() < 0.35:
        # the reference implementation with dictionaries; the recursion ends with the space it reaches
        return C(
            "spectra:getGreen", W.n, g.choice([0.0, -0.3]), psi, W.H[k], g.choice(W.mesh), g.choice([1.0, 2.0, -1.0]), g.choice([1, 3, 5]), g.choice([0, 1e-7, 1e-4, 1e-2]), W.R[j],
            mode="dict", tol=1e-4, canon=lambda x: np.asarray(x[1]),
        )  # fmt: skip
    return C(
        "spectra:getGreen", W.n, g.choice([0.0, -0.3]), psi, W.H[k], g.choice(W.mesh), g.choice([1.0, 2.0, -1.0]), 150, g.choice([0, 1e-7]), W.R[j], W.store("h", k, j) if g.random() < 0.7 else None,
        parallelization_mode=g.choice(["serial", "H_build"]), out=[9], alone={9: None}, tol=1e-5, canon=lambda x: np.asarray(x[1]),
    )  # fmt: skip


@call(3)
def getSpectra(g, W):
    es, psis = g.choice(W.groups)
    ts = g.choice([W.T, W.T[:1], W.T[::-1]])[:3]
    kw = {} if g.random() < 0.5 else {"parallelization_mode": g.choice(["eigen_states", "H_build"])}
    return C("spectra:getSpectra", W.n, g.choice(W.H), ts, psis[:2], es[:2], g.choice(W.mesh), g.choice([1.0, 2.0, -1.0]), g.choice(W.R), tol=1e-5, canon=lambda x: np.asarray(x[1]), **kw)


@call(2)
def getRIXSmap(g, W):
    es, psis = g.choice(W.groups)
    k, j = g.randrange(3), g.choice([0, 1])
    kw = {} if g.random() < 0.5 else {"parallelization_mode": g.choice(["serial", "H_build", "H_build_wIn"])}
    if g.random() < 0.5:
        kw["h_dict_ground"] = W.store("h", k, j)
    ts = [x for x in W.T if max(abs(v) for v in x.values()) > 0.1]
    return C(
        "spectra:getRIXSmap", W.n, W.H[k], ts[:1], [ref.dagger(x) for x in ts[:2]], psis[:1], es[:1], g.choice(W.mesh)[:2], g.choice(W.mesh), 2.0, 1.0, W.R[j],
        out=["h_dict_ground"], alone={"h_dict_ground": None}, tol=5e-3, canon=lambda x: np.asarray(x[1]), **kw,
    )  # fmt: skip


@call()
def simulate(g, W):
    es, psis = g.choice(W.groups)
    i = g.randrange(2)
    nB = OrderedDict((l, W.nB[l]) for l in (1, 2))
    if list(W.nB) != [1, 2]:
        return None
    args = [
        tuple(es[:2]), tuple(psis[:2]), g.choice(W.H), 300, g.choice(W.mesh)[:3], 2.0, W.eps[:2], g.choice(W.mesh)[:3], 2.0, [np.array(g.choice(W.q), dtype=float)],
        2, 2, W.radial[i][0], W.radial[i][1], W.r[i], g.choice(W.mesh)[:2], 2.0, W.eps[:1], W.eps[1:2], g.choice(W.R), None, nB,
    ]  # fmt: skip
    return C("here:whole_simulation", args, {}, tol=5e-3)


@call()
def hamiltonian_file(g, W):
    k = g.randrange(2)
    if g.random() < 0.5:
        return C("get_spectra:read_pickled_file", W.file("h0", k))
    return C("get_spectra_using_CF:read_h0_CF_file", W.file("cf", k))


@call()
def crystal_field(g, W):
    nb = g.choice([10, 20])
    return C("get_spectra_using_CF:get_CF_hamiltonian", OrderedDict([(1, 0), (2, nb)]), OrderedDict([(1, 0), (2, 10)]), W.file("cf", g.randrange(2)), *g.choice([(), ("spherical",), ("cubic",)]))


@call()
def total(g, W):
    s = g.choice([W.slater, W.slater2])
    if g.random() < 0.5:
        return C("get_spectra:get_hamiltonian_operator", W.nB, OrderedDict([(1, 0), (2, 0)]), s, g.choice(W.soc), g.choice(W.dcinfo), g.choice(W.field), W.file("h0", g.randrange(2)))
    return C("get_spectra_using_CF:get_hamiltonian_operator_using_CF", OrderedDict([(1, 0), (2, 10)]), OrderedDict([(1, 0), (2, 10)]), s, g.choice(W.soc), g.choice(W.dcinfo), g.choice(W.field), W.file("cf", g.randrange(2)))


@call()
def gather(g, W):
    return C("mpi_comm:allgather_dict", dict(g.choice(W.psi)), {}, out=[1])


@call(2)
def encoding(g, W):
    from checks import p03

    n = g.choice([W.n, 8, 9])
    m = g.choice([5, 130, 255, 0]) & ((1 << n) - 1)
    e = p03.encodings(m, n)
    src, dst = g.sample(p03.KINDS, 2)
    return C("product_state_representation:%s2%s" % (src, dst), e[src], *((n,) if dst in p03.NEEDS_N[src] else ()))


@call(2)
def create_remove(g, W):
    from checks import p03

    n = g.choice([W.n, 8, 9])
    kind = g.choice(p03.KINDS)
    x = p03.encodings(g.choice([5, 130, 255, 0]) & ((1 << n) - 1), n)[kind]
    mod = g.choice(["create", "remove"])
    i = g.randrange(n)
    name = "u" + kind
    args = [n, i, x] if kind in ("int", "bytes") else [i, x]
    if kind == "bitarray":
        return C("%s:%s" % (mod, name), i, x.copy(), out=[1])
    return C("%s:%s" % (mod, name), *args)


# ---------------------------------------------------------------- histories
HEAVY = ["total", "slater_condon", "simulate"]
NAMES = [k for k, (_, w) in CALLS.items() for _ in range(max(1, int(2 * w))) if k not in HEAVY]


@st.composite
def case(draw, heavy=False):
    # a few calculations again and again, or many different ones
    k = draw(st.sampled_from([3, 2, 1, 8]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k))
    names = [x for x in names for _ in range(8 // k)] + ["edit"]
    if heavy:
        names = names[:3] + HEAVY + ["edit", draw(st.sampled_from(HEAVY))]
    step = st.tuples(st.sampled_from(names), st.integers(0, 400), st.sampled_from([0, 1, 2, 3]))
    return {"world": draw(st.integers(0, 500)), "nb": draw(st.integers(0, 3)), "steps": draw(st.lists(step, min_size=4, max_size=5 if heavy else 9))}


def equal(x, y, tol):
    """None, or what differs"""
    import scipy.sparse as sp

    if sp.issparse(x) or sp.issparse(y):
        x, y = full_(x), full_(y)
    num = (int, float, complex, np.number, np.bool_, bool)
    if isinstance(x, num) and isinstance(y, num):
        d = abs(complex(x) - complex(y))
        ok = d <= tol * max(1e-3, abs(complex(y))) or (x != x and y != y)
        return None if ok else "%r and %r" % (x, y)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return "shapes %s and %s" % (x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            return equal(list(x), list(y), tol)
        if x.size == 0:
            return None
        scale = max(1e-6, np.abs(y).max())
        d = np.abs(x - y)
        i = np.unravel_index(np.argmax(d), d.shape)
        return None if d[i] <= tol * scale else "element %s: %r and %r" % (list(map(int, i)), x[i], y[i])
    if type(x) is not type(y):
        return "types %s and %s" % (type(x).__name__, type(y).__name__)
    if isinstance(x, dict):
        zero = lambda v: isinstance(v, num) and abs(v) < 1e-9
        for k in set(x) | set(y):
            if k not in x or k not in y:
                if zero(x.get(k, y.get(k))):
                    continue
                return "key %r is in one result only" % (k,)
            w = equal(x[k], y[k], tol)
            if w:
                return "[%r]: %s" % (k, w)
        return None
    if isinstance(x, (list, tuple)):
        if len(x) != len(y):
            return "lengths %d and %d" % (len(x), len(y))
        for i, (a, b) in enumerate(zip(x, y)):
            w = equal(a, b, tol)
            if w:
                return "[%d]: %s" % (i, w)
        return None
    if isinstance(x, (set, frozenset)):
        return None if x == y else "sets %r and %r" % (x, y)
    return None if x == y else "%.200r and %.200r" % (x, y)


def clobber(x, depth=0):
    """Overwrite everything that can be changed in a returned object."""
    import scipy.sparse as sp

    if sp.issparse(x):
        if hasattr(x, "data") and isinstance(x.data, np.ndarray) and x.data.dtype != object:
            x.data[...] = 77.0
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object and x.size:
            x[...] = 77
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            clobber(v, depth + 1)
        for k in list(x):
            x[k] = 77.5
        if len(x) % 2:
            x.clear()
    elif isinstance(x, list):
        for v in x:
            clobber(v, depth + 1)
        x.append("junk")
    elif isinstance(x, tuple):
        for v in x:
            clobber(v, depth + 1)
    elif type(x).__name__ == "bitarray" and len(x):
        x.invert()


def snap(x):
    return copy.deepcopy(x)


def args_equal(x, y):
    import scipy.sparse as sp

    if sp.issparse(x):
        return type(x) is type(y) and deep_equal(x.toarray(), y.toarray())
    if isinstance(x, (list, tuple)) and type(x) is type(y):
        return len(x) == len(y) and all(args_equal(a, b) for a, b in zip(x, y))
    return deep_equal(x, y)


def edit(W, g):
    """The caller changes one of his own objects in place."""
    kind = g.choice(["H", "T", "psi", "mesh", "radial", "slater", "eps", "O", "q"])
    if kind in ("H", "T", "O"):
        i = g.randrange(len(getattr(W, kind)))
        op = getattr(W, kind)[i]
        for p in list(op)[:2]:
            q = tuple((j, "c" if a == "a" else "a") for j, a in reversed(p))
            if q in op and q != p:
                op[q] *= 2
            op[p] *= 2
        # what was stored for the old operator is of no use any more
        pos = {"H": i, "T": 3 + i, "O": len(W.H) + len(W.T) + i}[kind]
        for s in [s for s in W.stores if s[0] == "op"]:
            del W.stores[s]
        if kind == "H":
            for s in [s for s in W.stores if s[0] == "h" and s[1] == pos]:
                del W.stores[s]
    elif kind == "psi":
        psi = g.choice(W.psi)
        for k in list(psi)[:1]:
            psi[k] = psi[k] * 1j
    elif kind == "mesh":
        g.choice(W.mesh)[...] += 0.25
    elif kind == "radial":
        g.choice(g.choice(W.radial))[...] *= 1.5
    elif kind == "slater":
        W.slater[0][2] += 1.0
        W.slater[2][0] += 0.5
    elif kind == "eps":
        W.eps[0][2] += 1
    elif kind == "q":
        g.choice([W.q[1], W.q[3]])[0] += 0.5


def change(x, fine=0, sets=False, layout=True):
    """
    Change an argument in place (Hermitian operators stay Hermitian, states keep their norm): much, or so little that rounding could
    hide it; with sets, restrictions get other orbitals and the same bounds; with layout, shells are put in another order. True if
    anything changed.
    """
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in "fc" or not x.flags.writeable or x.size == 0:
            return False
        x *= 1.003 if fine else 1.25
        return True
    if isinstance(x, dict):
        if x and all(isinstance(k, bytes) for k in x):
            z = complex(np.exp(0.003j)) if fine else 1j
            for k in x:
                x[k] = x[k] * z
            return True
        if x and all(isinstance(k, tuple) for k in x):
            for k in x:
                x[k] = x[k] * (1.003 if fine else 2)
            return True
        if layout and len(x) > 1 and all(isinstance(k, int) for k in x):
            new = list(reversed(x.items()))
            x.clear()
            x.update(new)
            return True
        if sets and x and all(isinstance(k, frozenset) for k in x):
            new = {}
            for k, v in x.items():
                new[frozenset(sorted(k)[2:]) | frozenset([0, 7][: len(k)])] = v
            done = list(new) != list(x)
            x.clear()
            x.update(new)
            return done
        return False
    if isinstance(x, list):
        out = False
        numbers = [i for i, v in enumerate(x) if isinstance(v, (float, complex))]
        if fine and fine % 2 and numbers:
            numbers = [numbers[fine // 2 % len(numbers)]]  # only one of them
        for i, v in enumerate(x):
            if isinstance(v, (float, complex)):
                if i not in numbers:
                    continue
                x[i] = v + (0.003 if fine else 1.25)
                out = True
            else:
                out = change(v, fine, sets, layout) or out
        return out
    if isinstance(x, tuple):
        return any([change(v, fine, sets, layout) for v in x])
    return False


def keep(W, kind, res):
    """Results become the arguments of later calls."""
    if kind == "psi" and isinstance(res, dict) and 0 < len(res) <= 60:
        n2 = sum(abs(a) ** 2 for a in res.values())
        if 1e-6 < n2 < 1e6:
            W.psi.append(res)
            del W.psi[:-6]
    elif kind == "basis" and 0 < len(res) <= 400:
        W.bases.append(tuple(res))
        del W.bases[:-4]
    elif kind == "group":
        es, psis = res
        W.groups.append((np.asarray(es), list(psis)))
        del W.groups[:-3]
    elif kind == "matrix":
        W.matrix = res
    elif kind == "T" and isinstance(res, list):
        W.T = (list(res) + W.T)[:4]
        for s in [s for s in W.stores if s[0] == "op"]:
            del W.stores[s]


def check(ctx, c):
    W = World(c)
    earlier, done = [], []
    try:
        for name, k, flags in c["steps"]:
            g = random.Random("%d %d" % (c["world"], k))
            if name == "edit":
                edit(W, g)
                ctx.label("edit")
                continue
            call_ = CALLS[name][0](g, W)
            if call_ is None:
                continue
            step(ctx, W, name, call_, flags, earlier)
            done.append(name)
            if flags & 2:
                # the same call after its arguments changed: in place, or those of a copy (which may live at the same address)
                for i in call_["alone"]:
                    if isinstance(i, int) and isinstance(call_["args"][i], dict):
                        call_["args"][i] = {}
                    elif i in call_["kw"]:
                        call_["kw"][i] = {}
                if flags & 1:
                    call_["args"] = snap(call_["args"])
                which = [i for i in range(len(call_["args"])) if i not in call_["out"]]
                g.shuffle(which)
                changed = False
                for i in which:
                    fine = k % 5 > 2 and 1 + k // 5
                    if isinstance(call_["args"][i], float) and call_["f"] != "finite:get_tridiagonal_krylov_vectors":
                        call_["args"][i] *= 1.003 if fine else 1.5
                        changed = True
                    changed = change(call_["args"][i], fine, name in ("applyOp", "getSpectra", "getRIXSmap"), name != "simulate") or changed
                    if changed and k % 3:
                        break  # only one of the arguments
                if changed:
                    ctx.label("changed arguments")
                    if not flags & 1:
                        W.stores.clear()
                    call_["keep"] = None
                    step(ctx, W, name, call_, flags, earlier)
            ctx.label(name)
        for what, obj, copy_ in earlier:
            ctx.check(args_equal(obj, copy_), "the result of %s was changed by later calculations: %.200r -> %.200r", what, copy_, obj)
        for path, content in W.files.values():
            with open(path, "rb") as f:
                ctx.check(f.read() == content, "parameter file %s was changed", path)
    finally:
        for path, _ in W.files.values():
            os.unlink(path)
    ctx.nontrivial(len(done) >= 3 and len(set(done)) < len(done))


def step(ctx, W, name, c, flags, earlier):
    f, args, kw = c["f"], c["args"], c["kw"]
    if flags & 1:
        # equal arguments, but other objects (which are gone afterwards)
        args = [a if i in c["out"] else snap(a) for i, a in enumerate(args)]
    what = f.split(":")[1]
    tol = c["tol"] or 1e-9
    before = snap((args, kw))
    alone_args, alone_kw = list(before[0]), dict(before[1])
    for i, v in c["alone"].items():
        if isinstance(i, int):
            alone_args[i] = v
        elif i in alone_kw:
            alone_kw[i] = v
    alone_in = pickle.dumps((alone_args, alone_kw), -1)

    def unchanged(when):
        for i, (a, b) in enumerate(zip(args, before[0])):
            ctx.check(i in c["out"] or args_equal(a, b), "%s changed its argument %d%s: %.300r -> %.300r", what, i, when, b, a)
        for i in kw:
            ctx.check(i in c["out"] or args_equal(kw[i], before[1][i]), "%s changed its argument %s%s", what, i, when)

    def run(args, kw):
        if f.startswith("here:"):
            res = ctx.call(resolve(f), args[0], args[1])
        else:
            res = ctx.call(resolve(f), *args, **kw)
        return ("ok", res, args, kw, ctx.stdout)

    def summary(x):
        if c["text"]:
            return x[4]
        r = c["canon"](x) if c["canon"] else x[1]
        return [r, [x[2][i] for i in sorted(j for j in c["out"] if isinstance(j, int)) if i not in c["alone"]]]

    inout = [i for i in c["out"] if isinstance(i, int) and i not in c["alone"]]
    first = run(args, kw)
    unchanged("")
    s1 = snap(summary(first))
    if not f.startswith("here:"):
        clobber(first[1])
        unchanged(" when the result was overwritten")
    args2 = list(args)
    for i in inout:
        args2[i] = snap(before[0][i])
    second = run(args2, kw)
    unchanged(" in the second call")
    s2 = snap(summary(second))
    alone = FRESH.ask(f, *pickle.loads(alone_in))
    ctx.check(alone[0] == "ok", "%s works here but not in a fresh process: %s", what, alone[1])
    s0 = summary(alone)
    d = equal(s1, s0, tol)
    ctx.check(d is None, "%s after other calculations and alone in a fresh process: %s", what, d)
    d = equal(s2, s0, tol)
    ctx.check(d is None, "%s repeated (the first result was overwritten meanwhile) and alone in a fresh process: %s", what, d)
    # the repeated result stays with the caller
    earlier.append((what, second[1], snap(second[1])))
    if c["keep"]:
        keep(W, c["keep"], snap(second[1]))


SUBS = [
    Sub("history", lambda t: case(), check, 900, shards=6, setup=setup, thorough=9000),
    Sub("whole", lambda t: case(True), check, 30, shards=2, setup=setup, thorough=300),
]
