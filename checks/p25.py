"""P25 Simulation output files hold the correct spectra."""

import io
import os
import shutil
from collections import OrderedDict

import h5py
import numpy as np
from hypothesis import strategies as st

from checks import p20, p21
from lib import gens, ref, systems
from lib.harness import Sub
from lib.model import Model, TooBig, norm, transition

PROP = "P25"
RULE = (
    "2p-3d systems with 0-3 bath states, Hamiltonians (random one- and two-electron terms, or Coulomb, spin-orbit and field terms), 1-6 "
    "states, temperatures, meshes, broadenings, polarizations, scattering vectors, radial functions and restrictions are drawn; "
    "simulate_spectra runs in a scratch directory and every stored spectrum is compared with the broadened spectral function of the "
    "reference model, every average with the Boltzmann mean, and every text and binary file with the averaged spectra. Non-trivial: at "
    "least two states and at least three of the five kinds of spectra are not zero."
)
ASSUMPTIONS = [
    "states are normalized; one MPI rank (several: P23)",
    "errors allowed: the weight cutoff 1e-7 and the tolerance of the iterative solver, as rigorous bounds",
    "connected sets of up to 300 product states; for more than 14 of them the broadening is at least 4 % of the spectral width",
]
NAMES = ["PS", "XPS", "NIXS", "XAS", "RIXS"]


def amp():
    return st.one_of(st.sampled_from([1, -1, [0, 1], [0.5, -0.5]]), gens.cnonzero(2.0))


@st.composite
def polarization(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, [0, 1], 0], [1, 1, 0]]))
    return [draw(st.one_of(st.just(0), gens.nonzero(1.5), gens.cnonzero(1.0))) for _ in range(3)]


@st.composite
def case(draw):
    nb = [draw(st.sampled_from([0, 0, 0, 1])), draw(st.sampled_from([0, 0, 1, 2]))]
    n = 16 + sum(nb)
    p, d = list(range(6)), list(range(6, 16))
    bath = list(range(16, n))
    nd = draw(st.sampled_from([9, 9, 10, 8, 1, 1, 0, 2]))
    kind = draw(st.sampled_from(["random", "random", "random", "atomic"])) if nd != 2 and nd != 8 else "random"
    states = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 3, 6]))):
        comps = []
        for _ in range(draw(st.integers(1, 3))):
            di = draw(st.permutations(d))[:nd]
            bi = [b for b in bath if draw(st.booleans())]
            comps.append([ref.mask_of(p + list(di) + bi), draw(amp())])
        states.append(comps)
    c = {"nb": nb, "nd": nd, "kind": kind, "states": states}
    c["e"] = [draw(gens.reals(3)) for _ in range(n)]
    if kind == "random":
        val = st.one_of(gens.nonzero(2.0), gens.cnonzero(1.5))
        hops = []
        for group, k in ((d + bath, 4), (p, 2)):
            for _ in range(draw(st.integers(0, k))):
                i, j = draw(st.sampled_from(group)), draw(st.sampled_from(group))
                hops.append([[[i, "c"], [j, "a"]], draw(val)])
        for _ in range(draw(st.integers(0, 3))):
            i, j, k, l = (draw(st.sampled_from(g)) for g in draw(st.sampled_from([(d, d, d, d), (p, d, d, p), (d, p, d, p), (d, d, d, d)])))
            hops.append([[[i, "c"], [j, "c"], [k, "a"], [l, "a"]], draw(val)])
        c["op"] = hops
    else:
        c["sc"] = [draw(gens.positive(0.5, 5)) for _ in range(9)] + [draw(gens.reals(2)) for _ in range(5)]
    c["es"] = [draw(gens.reals(0.25)) for _ in states]
    c["T"] = draw(st.sampled_from([1, 50, 300, 1000, 5000, 300.5]))
    for k, lo, hi in (("w", 2, 6), ("wLoss", 2, 5), ("wIn", 1, 3)):
        m = draw(st.integers(lo, hi))
        a, b = draw(gens.reals(6)), draw(gens.positive(0.5, 10))
        if draw(st.integers(0, 4)) == 0:
            a, b = 8 * a, 8 * b
        if k != "wIn" and draw(st.integers(0, 14)) == 0:
            c[k] = {"from": a, "width": b, "points": draw(st.one_of(st.sampled_from([100, 513, 1000, 3000]), st.integers(7, 2000)))}
        else:
            c[k] = [a + b * i / max(m - 1, 1) for i in range(m)]
    for k in ("delta", "deltaNIXS", "deltaRIXS"):
        c[k] = draw(gens.positive(0.25, 2))
    c["eps"] = draw(st.lists(polarization(), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 5]))))
    c["epsin"] = draw(st.lists(polarization(), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 3]))))
    c["epsout"] = draw(st.lists(polarization(), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 3]))))
    c["qs"] = draw(st.lists(p21.qvec(), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 5]))))
    c["li"], c["lj"] = draw(st.sampled_from([[2, 2], [2, 2], [2, 1]]))
    c["n"], c["rmax"], c["mesh"] = draw(st.integers(4, 9)), draw(st.sampled_from([1.0, 2.5])), draw(st.sampled_from(["linear", "from-zero"]))
    c["ri"] = [draw(st.integers(0, 2)), draw(gens.positive(0.3, 2))]
    c["rj"] = [draw(st.integers(0, 2)), draw(gens.positive(0.3, 2))]
    c["r"] = draw(st.sampled_from([None, None, "d", "d-bath", "tight"]))
    c["dn"] = draw(st.integers(0, 1))
    return c


def hamiltonian(c, nBaths):
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    if c["kind"] == "random":
        return systems.hamiltonian({"op": c["op"], "e": c["e"]})
    s = c["sc"]
    op = ref.add(
        ref.coulomb_2p3d([s[0], 0, s[1], 0, s[2]], [s[3], 0, s[4]], [s[5], 0, s[6]], [0, s[7], 0, s[8]]),
        ref.soc_op(s[9], 1),
        ref.soc_op(s[10], 2),
        ref.field_op(s[11:14], 2),
        {((x, "c"), (x, "a")): e for x, e in zip(lab, c["e"]) if x[0] == 1 and len(x) == 3 and e},
    )
    op = ref.normal_order(ref.reindex(op, index))
    return {p: v for p, v in gens.hermitian_part({k: v / 2 for k, v in op.items()}).items() if abs(v) > 1e-12}


def restrictions(c, n):
    nd, bath = c["nd"], frozenset(range(16, n))
    d = frozenset(range(6, 16))
    if c["r"] is None:
        return None
    if c["r"] == "d":
        return {d: (nd - 1, nd + 1 + c["dn"])}
    if c["r"] == "d-bath":
        return {d: (nd - 1, nd + 1 + c["dn"]), bath: (0, len(bath)), frozenset(): (0, 0)}
    return {d: (nd, nd + c["dn"])}


def pol(v):
    z = [gens.tocplx(x) for x in v]
    return [x.real if x.imag == 0 else x for x in z]


class Spectra:
    """Reference spectra with error bounds."""

    def __init__(self, model, r):
        self.model, self.r = model, r

    def response(self, t, psi, e, w, delta):
        phi, lost = transition(t, psi, self.r)
        if not phi:
            return np.zeros(len(w)), 0.0, 0.0
        n, width = self.model.extent(phi)
        need = 0.04 * max(1.0, width) if n > 14 else 0.0
        g = self.model.resolvent(phi, w + 1j * delta + e)
        a = norm(phi)
        return -g.imag, (2 * a * lost + lost**2) / abs(delta) + systems.lanczos_tol(n) * max(1.0, a * a) * max(1, 1 / abs(delta)), need

    def rixs(self, tin, tout, psi, e, wIn, wLoss, d1, d2):
        out, bound = np.zeros((len(wIn), len(wLoss))), np.zeros(len(wIn))
        phi, lost = transition(tin, psi, self.r)
        if not phi:
            return out, bound, 0.0
        n, width = self.model.extent(phi)
        need = 0.04 * width if n > 14 else 0.0
        thr = np.sqrt(1.1e-7)
        for k, w in enumerate(wIn):
            x = self.model.solve(phi, w + 1j * d1 + e)
            f = {m: a for m, a in ref.apply(tout, x, self.r).items() if abs(a) > 1e-13}
            if not f:
                continue
            n, width = self.model.extent(f)
            need = max(need, 0.04 * width if n > 14 else 0.0)
            out[k] = -self.model.resolvent(f, wLoss + 1j * d2 + e).imag
            # norm of a one-particle operator of rank <= 6 acting on many-body states
            T = np.sqrt(6 * sum(abs(v) ** 2 for v in tout.values()))
            dx = T * (3e-5 * norm(phi) + lost) / d1
            a = norm(f)
            small = [m for m, v in f.items() if abs(v) <= 1.3 * thr * max(1.0, a) + dx]
            d = dx + 3 * np.sqrt(len(small)) * thr * max(1.0, a)
            bound[k] = (2 * a * d + d * d) / d2 + systems.lanczos_tol(n) * max(1, a * a) / d2
        return out, bound, need


def prepare(ctx, c):
    """(arguments of simulate_spectra without the file, {spectrum: (values, error bounds)}) or None"""
    nBaths = OrderedDict(zip((1, 2), c["nb"]))
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    n = len(lab)
    op = hamiltonian(c, nBaths)
    if not op:
        ctx.label("no Hamiltonian")
        return None
    r = restrictions(c, n)
    psis = []
    for comps in c["states"]:
        psi = {}
        for m, a in comps:
            psi[m] = gens.tocplx(a)
        psis.append(systems.normalized(psi))
    es = tuple(c["es"])
    w, wLoss, wIn = (systems.points(c[k]) for k in ("w", "wLoss", "wIn"))
    delta, dn, dr = c["delta"], c["deltaNIXS"], c["deltaRIXS"]
    mesh, Ri, Rj = p21.radial(c)
    eps, epsin, epsout = ([pol(v) for v in c[k]] for k in ("eps", "epsin", "epsout"))
    # transition operators of the reference model
    add = [{((index[x], "c"),): 1.0} for x in ref.shell_labels(2)]
    rem = [{((index[x], "a"),): 1.0} for x in ref.shell_labels(2)]
    core = [{((index[x], "a"),): 1.0} for x in ref.shell_labels(1)]
    nixs = []
    for q in c["qs"]:
        M = p21.planewave(q, c["li"], c["lj"], Ri, Rj, mesh, 1)
        t = {}
        for s in range(2):
            for i, mi in enumerate(ref.lm(c["li"])):
                for j, mj in enumerate(ref.lm(c["lj"])):
                    if abs(M[i, j]) > 1e-13:
                        t[((index[(c["li"], s, mi)], "c"), (index[(c["lj"], s, mj)], "a"))] = M[i, j]
        nixs.append(t)
    dip = [p20.dipole(nBaths, v) for v in eps]
    tin = [p20.dipole(nBaths, v) for v in epsin]
    tout = [ref.dagger(p20.dipole(nBaths, v)) for v in epsout]
    S = Spectra(Model(op, r), r)

    def everything(delta, dn, dr):
        need = [0.0, 0.0, 0.0]
        out = {}

        def table(parts, slot):
            """parts: per component a list of (sign, operator, mesh, delta)"""
            v = [[0] * len(parts) for _ in psis]
            b = np.zeros((len(psis), len(parts)))
            for i, (psi, e) in enumerate(zip(psis, es)):
                for j, terms in enumerate(parts):
                    for sign, t, x, dd in terms:
                        y, bb, nn = S.response(t, psi, e, x, dd)
                        v[i][j] = v[i][j] + sign * y
                        b[i, j] += bb
                        need[slot] = max(need[slot], nn)
            return np.array(v), b[:, :, None]

        out["PS"] = table([[(1, t, w, delta), (-1, u, -w, -delta)] for t, u in zip(add, rem)], 0)
        out["XPS"] = table([[(-1, u, -w, -delta)] for u in core], 0)
        out["NIXS"] = table([[(1, t, wLoss, dn)] for t in nixs], 1)
        out["XAS"] = table([[(1, t, w, delta)] for t in dip], 0)
        maps = np.zeros((len(psis), len(tin), len(tout), len(wIn), len(wLoss)))
        b = np.zeros(maps.shape[:-1] + (1,))
        for i, (psi, e) in enumerate(zip(psis, es)):
            for j, ti in enumerate(tin):
                for k, to in enumerate(tout):
                    maps[i, j, k], b[i, j, k, :, 0], nn = S.rixs(ti, to, psi, e, wIn, wLoss, delta, dr)
                    need[0], need[2] = max(need[0], nn), max(need[2], nn)
        out["RIXS"] = maps, b
        return out, need

    try:
        want, need = everything(delta, dn, dr)
        if need[0] > delta or need[1] > dn or need[2] > dr:
            delta, dn, dr = max(delta, need[0]), max(dn, need[1]), max(dr, need[2])
            want, _ = everything(delta, dn, dr)
    except TooBig:
        ctx.exclude("connected set too big")
        return None
    args = [
        es, tuple(ref.psi_out(p, n) for p in psis), op, c["T"], w, delta, eps, wLoss, dn, [np.array(q) for q in c["qs"]], c["li"], c["lj"],
        Ri, Rj, mesh, wIn, dr, epsin, epsout, r, nBaths,
    ]  # fmt: skip
    return args, want


def execute(args, d, root=True):
    """Runs the simulation in the new directory d -> {file name: content}"""
    from impurityModel.ed import spectra

    here = os.getcwd()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    try:
        h5 = None
        if root:
            h5 = h5py.File("spectra.h5", "w")
            h5.create_dataset("E", data=args[0])
        spectra.simulate_spectra(*args[:20], h5, args[20])
        closed = not h5
        files = {}
        for k in sorted(os.listdir(".")):
            with open(k, "rb") as f:
                files[k] = f.read()
        return closed, files
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def scratch(name):
    return os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "%s_%d" % (name, os.getpid()))


def read(ctx, files):
    """(datasets, texts, numbers of RIXS.bin)"""
    ctx.check("spectra.h5" in files, "files written: %s", sorted(files))
    with h5py.File(io.BytesIO(files["spectra.h5"]), "r") as f:
        got = {k: f[k][()] for k in f}
    ctx.check(set(got) == {"E"} | set(NAMES) | {k + "thermal" for k in NAMES}, "datasets are %s", sorted(got))
    for k in [k + ".dat" for k in NAMES[:4]] + ["RIXS.bin"]:
        ctx.check(k in files, "%s is not written (%s)", k, sorted(files))
    return got, {k: files[k + ".dat"].decode() for k in NAMES[:4]}, np.frombuffer(files["RIXS.bin"], dtype=np.float32)


def check(ctx, c):
    p = prepare(ctx, c)
    if p is None:
        return
    args, want = p
    es, psis, w, wLoss, wIn = args[0], args[1], args[4], args[7], args[15]
    closed, files = ctx.call(execute, args, scratch("p25"))
    converged = not ("not achieved" in ctx.stdout or "breakdown" in ctx.stdout)
    ctx.check(closed, "the HDF5 file is still open after the simulation")
    got, texts, raw = read(ctx, files)
    ctx.close(got["E"], es, "dataset E", 0, 0)
    if not converged:
        ctx.exclude("iterative solver did not converge (RIXS values not judged)")
    kB = 8.617333262e-5
    wt = np.exp(-(np.array(es) - min(es)) / (kB * c["T"]))
    wt = wt / wt.sum()
    alive = 0
    for k in NAMES:
        ref_, b = want[k]
        x = ctx.array(got[k], ref_.shape, "dataset %s" % k)
        alive += np.abs(ref_).max() > max(1e-4, 20 * b.max())
        if k != "RIXS" or converged:
            bad = np.abs(x - ref_) - b
            i = np.unravel_index(np.argmax(bad), bad.shape)
            ctx.check(bad[i] <= 1e-9, "%s%s is %.8g, expected %.8g (error bound %.2g)", k, list(map(int, i)), x[i].real, ref_[i], np.broadcast_to(b, bad.shape)[i])
        th = ctx.array(got[k + "thermal"], ref_.shape[1:], "dataset %sthermal" % k)
        mean = np.tensordot(wt, x, axes=1)
        ctx.close(th, mean, "%sthermal" % k, 1e-5, 1e-9 * max(1.0, np.abs(x).max()))
        th = th.real
        if k == "RIXS":
            tot = th.sum(axis=(0, 1))
            ctx.check(raw.size == (len(wLoss) + 1) * (len(wIn) + 1), "RIXS.bin holds %d numbers", raw.size)
            t = raw.reshape(len(wLoss) + 1, len(wIn) + 1).astype(float)
            ctx.close(t[0, 0], len(wIn), "RIXS.bin, first number", 0, 0)
            ctx.close(t[0, 1:], wIn, "RIXS.bin, first row (wIn)", 1e-6, 1e-6)
            ctx.close(t[1:, 0], wLoss, "RIXS.bin, first column (wLoss)", 1e-6, 1e-6)
            ctx.close(t[1:, 1:], tot.T, "RIXS.bin, intensities", 2e-6, 1e-6 * max(1e-3, np.abs(tot).max()))
        else:
            lines = texts[k].splitlines()
            rows = [l for l in lines if not l.startswith("#")]
            ctx.check(len(lines) - len(rows) == 1 and lines[0].startswith("#"), "%s.dat: header is %r", k, lines[:2])
            mesh_ = wLoss if k == "NIXS" else w
            try:
                t = np.array([[float(y) for y in l.split()] for l in rows])
            except ValueError:
                ctx.fail("%s.dat is not a table: %r" % (k, rows[:3]))
            ctx.check(t.shape == (len(mesh_), 2 + th.shape[0]), "%s.dat has shape %s, expected %s", k, t.shape, (len(mesh_), 2 + th.shape[0]))
            ctx.close(t[:, 0], mesh_, "%s.dat, energies" % k, 0, 5.1e-5)
            ctx.close(t[:, 1], th.sum(axis=0), "%s.dat, sum" % k, 1e-9, 5.1e-5)
            ctx.close(t[:, 2:], th.T, "%s.dat, components" % k, 1e-9, 5.1e-5)
    ctx.label("%s d%d" % (c["kind"], c["nd"]))
    ctx.label("restrictions %s" % c["r"])
    ctx.nontrivial(len(psis) > 1 and alive >= 3)


SUBS = [Sub("simulate", lambda t: case(), check, 200, shards=8, thorough=2400)]
