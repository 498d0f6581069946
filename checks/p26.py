"""P26 Simulation drivers turn every input option into the right calculation."""

import ast
import os
import pickle
import re
import shutil

import numpy as np
from hypothesis import strategies as st

from checks import p08, p14, p15, p16, p17, p24
from lib import driver, gens, mpitasks, ref
from lib.harness import Sub

PROP = "P26"
RULE = (
    "Both simulation programs are run as __main__ with a drawn subset of their options (others left to the documented defaults), drawn "
    "input files and bath layouts, in a scratch directory and with the spectra stage replaced by a recorder. The recorded arguments, the "
    "saved files and the printed tables are compared with what the options ask for, derived independently: Hamiltonian as a sum of "
    "reference terms, restrictions from the layout, the energy window applied to exact eigenvalues, eigenstates by their residuals. "
    "Inconsistent command lines must end with an error before the spectra stage. Some runs are repeated on 2-3 simulated MPI ranks. "
    "Non-trivial: at least five options are given and at least two eigenstates are passed on."
)
ASSUMPTIONS = [
    "systems of up to 220 product states, 6 electrons in the 2p shell (the programs support no other number)",
    "no eigenvalue lies within rounding errors of the energy window (such runs are not judged)",
]
KB = 8.617333262e-5
DEFAULT = {
    "ls": [1, 2],
    "nBaths": [0, 10],
    "nValBaths": [0, 10],
    "n0imps": [6, 8],
    "dnTols": [0, 2],
    "dnValBaths": [0, 2],
    "dnConBaths": [0, 0],
    "Fdd": [7.5, 0, 9.9, 0, 6.6],
    "Fpp": [0, 0, 0],
    "Fpd": [8.9, 0, 6.8],
    "Gpd": [0, 5, 0, 2.8],
    "xi_2p": 11.629,
    "xi_3d": 0.096,
    "chargeTransferCorrection": 1.5,
    "hField": [0, 0, 0.0001],
    "nPsiMax": 5,
    "nPrintSlaterWeights": 3,
    "tolPrintOccupation": 0.5,
    "T": 300,
    "energy_cut": 10,
    "delta": 0.2,
    "deltaRIXS": 0.05,
    "deltaNIXS": 0.1,
}
LISTS = ["nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths"]
W = np.linspace(-25, 25, 3000)
WIN = np.linspace(-10, 20, 50)
WLOSS = np.linspace(-2, 12, 4000)
QS = [[2 / np.sqrt(3)] * 3, [7 / np.sqrt(3)] * 3]
EPS = np.eye(3)


def shells(o):
    return [[l, nb, nv, dv, dc, tol, n0] for l, nb, nv, n0, tol, dv, dc in zip(o["ls"], o["nBaths"], o["nValBaths"], o["n0imps"], o["dnTols"], o["dnValBaths"], o["dnConBaths"])]


def size(o):
    """Number of product states, or None for requests that have to be rejected."""
    total = 1
    for s in shells(o):
        opts, over, under = p08.shell_options(*s)
        if over or under:
            return None
        total *= p08.count(s[0], s[1], s[2], opts)
    return total


@st.composite
def options(draw, program, limit):
    o = {}
    cf = program == "get_spectra_using_CF"
    third = draw(st.sampled_from([None] * 5 + [0]))
    ls = [1, 2] if cf else list(draw(st.sampled_from([(1, 2), (1, 2), (2, 1)])))
    if third is not None:
        ls = ls + [0] if cf or draw(st.booleans()) else [0] + ls
    o["ls"] = ls
    for k in LISTS:
        o[k] = []
    for l in ls:
        if l == 2:
            nb = draw(st.sampled_from([10, 10, 20])) if cf else draw(st.integers(0, 4))
            nv = 10 if cf else draw(st.integers(0, nb))
            n0 = draw(st.sampled_from([8, 9, 9, 8, 10, 1, 2, 1, 0, 9]))
            dv, dc = draw(st.integers(0, 2)), draw(st.integers(0, 1))
            tol = draw(st.integers(0, 2))
            if draw(st.integers(0, 4)) == 0:
                # only limits of the calculation, not of the start configurations
                dv, dc, tol = draw(st.integers(2, 6)), draw(st.integers(0, 4)), 0
        else:
            nb = draw(st.sampled_from([0, 0, 0, 1, 2]))
            nv = draw(st.integers(0, nb))
            n0 = 6 if l == 1 else draw(st.integers(0, 2))
            dv, dc, tol = draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(0, 1))
        dv, dc = min(dv, nv), min(dc, nb - nv)
        # the occupation of every partition has to be possible
        while p08.shell_options(l, nb, nv, dv, dc, tol, n0)[1] or p08.shell_options(l, nb, nv, dv, dc, tol, n0)[2]:
            if dv:
                dv -= 1
            elif dc:
                dc -= 1
            else:
                break
        for k, v in zip(LISTS, (nb, nv, n0, tol, dv, dc)):
            o[k].append(v)
    i = ls.index(2)
    while size(o) is None or size(o) > limit:
        if o["dnConBaths"][i]:
            o["dnConBaths"][i] -= 1
        elif o["dnValBaths"][i]:
            o["dnValBaths"][i] -= 1
        else:
            o["n0imps"][i] = 9 if o["n0imps"][i] > 4 else 1
            if size(o) is None or size(o) > limit:
                for k in ("dnTols", "dnValBaths", "dnConBaths"):
                    o[k] = [0] * len(ls)
    val = st.one_of(gens.reals(9.0), st.sampled_from([0, 1, 2.5]))
    for k, n in (("Fdd", 5), ("Fpp", 3), ("Fpd", 3), ("Gpd", 4)):
        o[k] = [round(abs(draw(val)), 6) for _ in range(n)]
    o["xi_2p"], o["xi_3d"] = draw(gens.positive(0, 12)), draw(gens.positive(0, 0.5))
    o["chargeTransferCorrection"] = draw(gens.reals(4))
    o["hField"] = [draw(gens.reals(0.5)) if draw(st.integers(0, 3)) else 0 for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:
        o["hField"] = [round(1e-4 * x, 11) for x in o["hField"]]
    o["nPsiMax"] = draw(st.one_of(st.integers(1, 12), st.integers(8, 30)))
    o["nPrintSlaterWeights"] = draw(st.integers(0, 5))
    o["tolPrintOccupation"] = draw(gens.positive(0.01, 0.95))
    o["T"] = draw(st.one_of(st.sampled_from([300, 10, 1000, 10000]), gens.positive(5, 3000), gens.positive(3000, 30000), st.sampled_from([0.6, 1.5, 1.75, 2.9])))
    o["energy_cut"] = round(draw(st.sampled_from([1e-5, 1e-4, 0.001, 0.05, 0.3, 1, 4, 20])) * draw(gens.positive(0.5, 2)) / (KB * o["T"]), 4)
    for k in ("delta", "deltaRIXS", "deltaNIXS"):
        o[k] = draw(gens.positive(0.01, 1))
    # which options are left to their defaults
    default_system = cf and draw(st.integers(0, 9)) == 0
    drop = draw(st.lists(st.sampled_from(sorted(set(DEFAULT) - set(LISTS) - {"ls"})), unique=True, max_size=10))
    if default_system:
        drop += LISTS + ["ls"]
    for k in LISTS + ["ls"]:
        if o[k] == DEFAULT[k] and draw(st.booleans()):
            drop.append(k)
    return {k: v for k, v in o.items() if k not in drop}


@st.composite
def case(draw, limit):
    program = draw(st.sampled_from(["get_spectra_using_CF", "get_spectra"]))
    c = {"program": program, "opt": draw(options(program, limit))}
    o = full(c)
    if program == "get_spectra":
        # the non-interacting part acts on everything except the 2p shell
        lab = [x for x in ref.layout(dict(zip(o["ls"], o["nBaths"]))) if not (x[0] == 1 and len(x) == 3)]
        ind = st.integers(0, len(lab) - 1)
        c["h0"] = draw(st.lists(st.tuples(ind, ind, gens.numbers()), max_size=8))
        c["diag"] = [draw(gens.reals(3)) for _ in lab]
        if draw(st.integers(0, 3)) == 0:
            # almost degenerate levels
            c["diag"] = [1e-4 * x for x in c["diag"]]
            c["h0"] = [(i, j, 1e-4 * abs(gens.tocplx(v))) for i, j, v in c["h0"]]
    else:
        c["cf"] = draw(p14.case())["p"]
    c["rad"] = [draw(st.integers(3, 9)), draw(st.integers(0, 2)), draw(gens.positive(0.3, 2)), draw(st.booleans()), draw(st.sampled_from([None, None, 0.7, 1.3]))]
    c["eq"] = draw(st.booleans())
    c["where"] = draw(st.booleans())
    return c


def full(c):
    o = dict(DEFAULT)
    o.update(c["opt"])
    return o


def fmt(x):
    return repr(x) if abs(x) > 1e-3 or x == 0 else "%.12f" % x


def argv(opt, files, c):
    """files first or last (not directly behind an option that takes several values)"""
    out = []
    order = sorted(opt)
    for k in order:
        v = opt[k]
        if isinstance(v, list):
            out += ["--" + k] + [fmt(x) if isinstance(x, (int, float)) else x for x in v]
        elif c["eq"]:
            out += ["--%s=%s" % (k, fmt(v) if isinstance(v, (int, float)) else v)]
        else:
            out += ["--" + k, fmt(v) if isinstance(v, (int, float)) else v]
    if c["where"] and order and not isinstance(opt[order[-1]], list):
        return out + files
    return files + out


def pickled(c, o):
    lab = [x for x in ref.layout(dict(zip(o["ls"], o["nBaths"]))) if not (x[0] == 1 and len(x) == 3)]
    h0 = {}
    for i, j, v in c["h0"]:
        v = gens.tocplx(v)
        i, j = i % len(lab), j % len(lab)
        if i == j:
            continue
        h0[((lab[i], "c"), (lab[j], "a"))] = v
        h0[((lab[j], "c"), (lab[i], "a"))] = np.conj(v) if isinstance(v, complex) else v
    for x, v in zip(lab, c["diag"]):
        if v:
            h0[((x, "c"), (x, "a"))] = v
    return h0


def crystal(c, o):
    q = dict(p14.DEFAULT)
    q.update({k: v for k, v in c["cf"].items() if k in p14.DEFAULT})
    imp, baths = p14.reference(q, o["nBaths"][o["ls"].index(2)] == 20)
    h0 = {}
    for s in range(2):
        I = [(2, s, m) for m in ref.lm(2)]
        h0 = ref.add(h0, ref.one_body(imp, I))
        for k, (e, v) in enumerate(baths):
            B = [(2, 10 * k + 5 * s + i) for i in range(5)]
            h0 = ref.add(h0, ref.one_body(e, B))
            for i in range(5):
                for j in range(5):
                    if v[i, j] != 0:
                        h0 = ref.add(h0, {((B[i], "c"), (I[j], "a")): v[i, j], ((I[j], "c"), (B[i], "a")): np.conj(v[i, j])})
    return h0


def scratch():
    d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p26_%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def prepare(c, o, d):
    """Writes the input files -> (names, non-interacting operator, radial table)"""
    if c["program"] == "get_spectra":
        h0 = pickled(c, o)
        f = os.path.join(d, "h0.pickle")
        with open(f, "wb") as fh:
            pickle.dump(h0, fh)
    else:
        h0 = crystal(c, o)
        f = p14.write("p26_%d.json" % os.getpid(), c["cf"])
        shutil.move(f, os.path.join(d, "h0.json"))
        f = os.path.join(d, "h0.json")
    n, p, a, header, node = c["rad"]
    r = np.linspace(0.05, 2.0, n)
    R = r**p * np.exp(-a * r)
    if node:
        R *= node - r
    g = os.path.join(d, "radial.dat")
    np.savetxt(g, np.array([r, R]).T, header="r R" if header else "")
    return [f, g], h0, np.array([r, R])


def matrix(op, basis):
    """Matrix of a normal-ordered operator."""
    index = {m: i for i, m in enumerate(basis)}
    terms = [(p, h, ref.mask_of(i for i, k in p if k == "a"), ref.mask_of(i for i, k in p if k == "c")) for p, h in op.items()]
    M = np.zeros((len(basis), len(basis)), dtype=complex)
    for j, m in enumerate(basis):
        for p, h, a, c in terms:
            if m & a == a and not m & ~a & c:
                i = index.get(m & ~a | c)
                if i is not None:
                    M[i, j] += h * ref.act(m, p)[1]
    return M


def judge(ctx, c, o, got, files, h0, table):
    """Everything but the saved files."""
    cf = c["program"] == "get_spectra_using_CF"
    nBaths = dict(zip(o["ls"], o["nBaths"]))
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    n = len(lab)
    par = {k: o[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd")}
    par.update(xi=[o["xi_2p"], o["xi_3d"]], h=o["hField"], n3d=o["n0imps"][o["ls"].index(2)], c=o["chargeTransferCorrection"])
    op = p15.expected(par, h0)
    p15.verify(ctx, got["hOp"], op, nBaths, "Hamiltonian passed on")
    ctx.check(dict(got["nBaths"]) == nBaths and list(got["nBaths"]) == o["ls"], "nBaths passed on: %s, expected %s", got["nBaths"], nBaths)
    for k in ("T", "delta", "deltaNIXS", "deltaRIXS"):
        ctx.close(got[k], o[k], k, 1e-14, 0)
    for k, v in (("w", W), ("wIn", WIN), ("wLoss", WLOSS), ("qsNIXS", QS), ("epsilons", EPS), ("epsilonsRIXSin", EPS), ("epsilonsRIXSout", EPS)):
        ctx.close(got[k], v, k, 1e-12, 1e-12)
    ctx.check(got["liNIXS"] == 2 and got["ljNIXS"] == 2, "shells of the NIXS transition: %s %s", got["liNIXS"], got["ljNIXS"])
    for k, v in (("radialMesh", table[0]), ("RiNIXS", table[1]), ("RjNIXS", table[1])):
        ctx.close(got[k], v, k, 1e-12, 1e-15)
    # occupation restrictions
    i = o["ls"].index(2)
    nb, nv, n0, tol, dv, dc = (o[k][i] for k in LISTS)
    imp = frozenset(index[x] for x in ref.shell_labels(2))
    want = {imp: (n0 - 1, n0 + tol + 1), frozenset(index[(2, b)] for b in range(nv)): (nv - dv, nv), frozenset(index[(2, b)] for b in range(nv, nb)): (0, dc)}
    r = {frozenset(k): tuple(v) for k, v in got["restrictions"].items() if len(k)}
    want = {k: v for k, v in want.items() if len(k)}
    ctx.check(r == want, "restrictions %s, expected %s", r, want)
    # eigenstates
    masks, _ = p08.expected({"shells": shells(o)}, nBaths)
    basis = sorted(masks)
    H = matrix(ref.normal_order(ref.reindex(op, index)), basis)
    E, U = np.linalg.eigh(H)
    norm = max(1.0, np.abs(E).max())
    t = 1e-7 * norm
    k = min(o["nPsiMax"], len(basis))
    saved = None if got["h5f"] is None else ctx.array(got["h5f"].get("E"), None, "dataset E").real
    es = ctx.array(got["es"], None, "energies passed on").real
    cut = o["energy_cut"] * KB * o["T"]
    if saved is not None:
        ctx.check(saved.shape == (k,), "%s energies saved, %d requested (basis of %d)", saved.shape, k, len(basis))
        ctx.check(abs(saved[0] - E[0]) < t, "lowest energy %r, expected %r (basis of %d)", saved[0], E[0], len(basis))
        for e in saved:
            ctx.check(np.abs(E - e).min() < t, "saved energy %r is no eigenvalue", e)
        if k >= len(basis) - 1 or np.all(np.diff(E[: k + 1]) > 1e-3 * np.ptp(E)):
            ctx.close(saved, E[:k], "saved energies", 0, t)
            ctx.label("all energies compared")
        if np.abs(saved - saved[0] - cut).min() < 1e-9 * norm:
            ctx.exclude("energy at the edge of the window")
            return None
        sel = saved[saved - saved[0] < cut]
        ctx.close(es, sel, "energies passed on (window %.6g eV, all: %s)" % (cut, saved), 0, 1e-12 * norm)
        if len(sel) < k:
            ctx.label("states outside the energy window")
    ctx.check(len(got["psis"]) == len(es), "%d states and %d energies passed on", len(got["psis"]), len(es))
    psis = []
    for e, psi in zip(es, got["psis"]):
        p = ref.psi_in(ctx, psi, n, "eigenstate")
        ctx.check(set(p) <= masks, "eigenstate leaves the basis")
        v = ref.vec(p, basis)
        lost = (len(basis) - len(p)) * 1e-7 + 1e-8
        ctx.check(abs(np.vdot(v, v) - 1) <= lost, "norm %r of an eigenstate", np.vdot(v, v))
        res = np.linalg.norm(H @ v - e * v)
        ctx.check(res <= 2.1 * norm * np.sqrt(lost) + 1e-5 * norm, "residual %.3g of the state of energy %r", res, e)
        psis.append(p)
    return nBaths, saved, psis, index, n, H.shape[0]


def printed(ctx, out, o, info):
    nBaths, saved, psis, index, n, N = info
    idx, _ = p16.dshell(nBaths)
    # thermal averages
    T, e = o["T"], saved - saved[0]
    table = {}
    for line in out.splitlines():
        m = re.match(r"\s*<([^>]*)>\s*=\s*(\S+)\s*$", line)
        if m:
            table[m.group(1)] = float(m.group(2))
    low = [i for i in range(len(e)) if e[i] < 10 * KB * T]
    if np.abs(e - 10 * KB * T).min() > 1e-6:
        w = p17.weights(saved[low], T)
        names = p17.NAMES
        want = [float(np.dot(w, e[low]))]
        if len(psis) >= len(low):
            vals = [p16.values(psis[i], idx) for i in low]
            av = lambda f: float(sum(x * f(v) for x, v in zip(w, vals)))
            want += [av(lambda v: v["N"])] + [av(lambda v: v["occ"][j]) for j in range(4)] + [av(lambda v: v[k]) for k in ("Lz", "Sz", "L2", "S2")]
            ctx.label("thermal averages compared")
        for name, v in zip(names, want):
            ctx.check(name in table, "<%s> not printed", name)
            ctx.check(abs(table[name] - v) <= 7e-4, "<%s> printed as %r, expected %r (T=%r)", name, table[name], v, T)
    # highest weights
    k = o["nPrintSlaterWeights"]
    blocks = re.findall(r"Highest \(product state\) weights:\n(.*?)Corresponding product states:\n(.*?)\n\n", out, re.S)
    ctx.check(len(blocks) == (len(saved) if k > 0 else 0), "weights of %d states printed, expected %d", len(blocks), len(saved) if k > 0 else 0)
    for (ws, ss), psi in zip(blocks, psis):
        ws = [float(x) for x in ws.replace("[", " ").replace("]", " ").split()]
        high = sorted((abs(a) ** 2 for a in psi.values()), reverse=True)
        ctx.close(ws, high[:k], "printed weights (of %d)" % k, 1e-6, 1e-7)
        ss = [ast.literal_eval(x) for x in re.findall(r"""b'(?:[^'\\]|\\.)*'|b"(?:[^"\\]|\\.)*\"""", ss)]
        ctx.check(len(ss) == len(ws), "%d product states printed for %d weights", len(ss), len(ws))
        amps = {ref.enc(m, n).rstrip(b"\0"): abs(a) ** 2 for m, a in psi.items()}
        for x, y in zip(ws, ss):
            y = y.rstrip(b"\0")
            ctx.check(y in amps and abs(amps[y] - x) < 1e-6, "product state %r printed with weight %r, has %r", y, x, amps.get(y))
    # occupations above the printing tolerance
    tol = o["tolPrintOccupation"]
    part = out.split("Density matrix (in cubic harmonics basis):")[-1]
    parts = re.split(r"Eigenstate \d+\n", part)[1:]
    ctx.check(len(parts) == len(saved), "density matrices of %d states printed, expected %d", len(parts), len(saved))
    u = np.kron(np.eye(2), UMAT[0])
    for text, psi in list(zip(parts, psis))[:3]:
        rho = np.abs(u.conj().T @ p16.density(psi, idx) @ u)
        for name, x in (("Diagonal:", np.diag(rho)), ("Off-diagonal:", (rho - np.diag(np.diag(rho))).ravel())):
            if np.abs(x - tol).min() < 1e-5:
                continue
            k = len(re.findall("^" + name, text, re.M))
            ctx.check(k == (x > tol).sum(), "%d %s elements printed, %d exceed %r", k, name, (x > tol).sum(), tol)


UMAT = []


def setup(ctx):
    from impurityModel.ed import finite

    p24.setup(ctx)
    UMAT.append(np.asarray(finite.get_spherical_2_cubic_matrix()))


def start(ctx, c, d):
    o = full(c)
    files, h0, table = prepare(c, o, d)
    ctx.label(c["program"])
    ctx.label("shells %s" % o["ls"])
    return o, files, h0, table, argv(c["opt"], files, c)


def npz(ctx, d, c, o, files, got):
    with np.load(os.path.join(d, "data.npz"), allow_pickle=True) as f:
        data = {k: f[k] for k in f.files}
    want = {k: o[k] for k in DEFAULT if k not in ("nPrintSlaterWeights", "tolPrintOccupation")}
    for k in LISTS:
        want[k] = dict(zip(o["ls"], o[k]))
    want["energy_cut"] = o["energy_cut"] * KB * o["T"]
    want["h0_CF_filename" if c["program"] == "get_spectra_using_CF" else "h0_filename"] = files[0]
    want["n_spin_orbitals"] = sum(4 * l + 2 + b for l, b in zip(o["ls"], o["nBaths"]))
    for k in ("epsilons", "epsilonsRIXSin", "epsilonsRIXSout"):
        want[k] = EPS
    for k in ("hOp", "restrictions"):
        want[k] = got[k]
    for k, v in want.items():
        ctx.check(k in data, "%s is not in data.npz", k)
        x = data[k]
        if isinstance(v, dict):
            x = x.item()
            ctx.check(isinstance(x, dict) and dict(x) == dict(v), "data.npz: %s is %.200r, expected %.200r", k, x, v)
        elif isinstance(v, str):
            ctx.check(x.item() == v, "data.npz: %s is %r, expected %r", k, x, v)
        else:
            ctx.close(x, v, "data.npz: %s" % k, 1e-10, 1e-14)


def h5(ctx, got, table):
    f = got["h5f"]
    ctx.check(got["h5mode"] != "r" and got["h5name"] == "spectra.h5", "the file %s is passed on opened in mode %s", got["h5name"], got["h5mode"])
    for k, v in (("w", W), ("wIn", WIN), ("wLoss", WLOSS), ("qsNIXS", QS), ("r", table[0]), ("RiNIXS", table[1]), ("RjNIXS", table[1])):
        ctx.check(k in f, "dataset %s is missing", k)
        ctx.close(f[k], v, "dataset %s" % k, 1e-12, 1e-15)


def check(ctx, c):
    d = scratch()
    try:
        o, files, h0, table, args = start(ctx, c, d)
        ctx.sut_calls += 1
        out = driver.run(c["program"], args, d)
        ctx.check(out["error"] is None, "%s %s failed: %s %s", c["program"], " ".join(args), out["error"], out["stderr"][-300:])
        ctx.check(len(out["calls"]) == 1, "spectra stage reached %d times", len(out["calls"]))
        got = out["calls"][0]
        ctx.check(got["h5f"] is not None, "no HDF5 file passed on")
        info = judge(ctx, c, o, got, files, h0, table)
        npz(ctx, d, c, o, files, got)
        h5(ctx, got, table)
        if info is None:
            return
        printed(ctx, out["stdout"], o, info)
        ctx.nontrivial(len(c["opt"]) >= 5 and len(got["es"]) > 1)
        ctx.label("%d product states" % (10 ** len(str(info[-1]))) if info[-1] > 1 else "one product state")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- several ranks ----------------------------------------------------------


@st.composite
def mpi_case(draw):
    c = draw(case(45))
    c["size"] = draw(st.sampled_from([2, 3]))
    c["timing"] = draw(p24.timing())
    return c


def check_mpi(ctx, c):
    d = scratch()
    try:
        o, files, h0, table, args = start(ctx, c, d)
        many = p24.simulate(ctx, "driver", {"program": c["program"], "argv": args, "cwd": d}, c)
        ctx.label("%d ranks" % c["size"])
        for k, out in enumerate(many):
            ctx.check(out["error"] is None and len(out["calls"]) == 1, "rank %d: %s %s", k, out["error"], out["stderr"][-300:])
            got = out["calls"][0]
            if k == 0:
                ctx.check({"data.npz", "spectra.h5"} <= set(out["files"]), "root rank wrote %s", out["files"])
                h5(ctx, got, table)
                npz(ctx, os.path.join(d, "rank0"), c, o, files, got)
            else:
                ctx.check(got["h5f"] is None and not out["files"], "rank %d of %d writes files: %s", k, c["size"], out["files"])
                ctx.close(got["es"], many[0]["calls"][0]["es"], "energies passed on by rank %d" % k, 1e-9, 1e-9)
            info = judge(ctx, c, o, got, files, h0, table)
            if k == 0 and info is not None:
                printed(ctx, out["stdout"], o, info)
                ctx.nontrivial(len(c["opt"]) >= 5 and len(got["es"]) > 1)
            # all ranks have to work on the same states
            a, b = got["psis"], many[0]["calls"][0]["psis"]
            for x, y in zip(a, b):
                for s in set(x) | set(y):
                    ctx.check(abs(x.get(s, 0) - y.get(s, 0)) < 1e-4, "ranks 0 and %d hold different eigenstates", k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- inconsistent command lines ---------------------------------------------

BAD = [
    "too many", "too few", "valence", "occupation", "negative", "coulomb", "field", "overfill", "p occupation", "no h0", "no radial",
    "columns", "text", "missing argument", "unknown option", "hermitian", "layout",
]  # fmt: skip


@st.composite
def bad_case(draw):
    c = draw(case(45))
    c["bad"] = draw(st.sampled_from(BAD))
    c["pick"] = draw(st.integers(0, 999))
    return c


def check_bad(ctx, c):
    d = scratch()
    try:
        o, files, h0, table, args = start(ctx, c, d)
        kind, k = c["bad"], c["pick"]
        cf = c["program"] == "get_spectra_using_CF"
        opt = {x: (list(v) if isinstance(v, list) else v) for x, v in o.items()}
        i = o["ls"].index(2)
        if kind == "too many":
            x = LISTS[k % 6]
            opt[x].append((k // 6) % 3)
        elif kind == "too few":
            opt[LISTS[k % 6]].pop()
        elif kind == "valence":
            j = (k // 7) % len(o["ls"])
            opt["nValBaths"][j] = opt["nBaths"][j] + 1 + k % 7
        elif kind == "occupation":
            j = (k // 7) % len(o["ls"])
            opt["n0imps"][j] = 4 * o["ls"][j] + 3 + k % 7
        elif kind == "negative":
            opt["n0imps"][k % len(o["ls"])] = -1 - k % 3
        elif kind == "coulomb":
            x = ["Fdd", "Fpp", "Fpd", "Gpd"][k % 4]
            opt[x] = opt[x] + [0.5] if k & 4 else opt[x][:-1]
        elif kind == "field":
            opt["hField"] = opt["hField"] + [0.5] if k & 4 else opt["hField"][:-1]
        elif kind == "overfill":
            # more electrons leave the valence bath than it holds, or enter the conduction bath than fit
            x, room = ("dnValBaths", opt["nValBaths"][i]) if k & 1 else ("dnConBaths", opt["nBaths"][i] - opt["nValBaths"][i])
            opt[x][i] = room + 1
            opt["dnTols"][i] = 30
            opt["n0imps"][i] = 10 if x == "dnConBaths" else 0
            if room > 4:
                kind = "layout"
        elif kind == "p occupation":
            opt["n0imps"][o["ls"].index(1)] = k % 6
        elif kind == "no h0":
            files[0] += "x"
        elif kind == "no radial":
            files[1] += "x"
        elif kind == "columns":
            np.savetxt(files[1], np.array([table[0], table[1], table[1]]).T if k & 1 else table[0])
        elif kind == "text":
            x = sorted(DEFAULT)[k % len(DEFAULT)]
            opt[x] = ["abc"] * len(DEFAULT[x]) if isinstance(DEFAULT[x], list) else "abc"
        elif kind == "missing argument":
            files.pop()
        elif kind == "unknown option":
            opt["nothing"] = 3
        if kind == "hermitian":
            if cf:
                kind = "layout"
            else:
                with open(files[0], "wb") as f:
                    # a process without its adjoint
                    h0[(((2, 0, 1), "c"), ((2, 0, -1), "a"))] = 0.7
                    h0.pop((((2, 0, -1), "c"), ((2, 0, 1), "a")), None)
                    pickle.dump(h0, f)
        if kind == "layout":
            if cf:
                j = k % 4
                if j == 0:
                    for x in LISTS + ["ls"]:
                        opt[x] = opt[x][:2][::-1]
                elif j == 1:
                    opt["nBaths"][1] = [11, 12, 15, 19, 21, 30][k // 4 % 6]
                elif j == 2:
                    opt["nValBaths"][1] = [9, 5, 0, 1][k // 4 % 4]
                else:
                    opt["nBaths"][1] = opt["nValBaths"][1] = [5, 0, 1, 20][k // 4 % 4]
            else:
                for x in LISTS + ["ls"]:
                    opt[x] = [v for l, v in zip(o["ls"], o[x]) if l != 1 + k % 2]
        ctx.label(kind)
        ctx.nontrivial()
        args = argv(opt, files, c)
        ctx.sut_calls += 1
        out = driver.run(c["program"], args, d)
        ctx.check(not out["calls"], "%s: the spectra stage is reached with: %s", kind, " ".join(args))
        ctx.check(out["error"] is not None, "%s: ends without an error: %s", kind, " ".join(args))
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUBS = [
    Sub("run", lambda t: case(110 if t == "quick" else 220), check, 220, shards=6, setup=setup, thorough=1500),
    Sub("ranks", lambda t: mpi_case(), check_mpi, 10, shards=2, setup=setup, thorough=150),
    Sub("reject", lambda t: bad_case(), check_bad, 200, shards=2, setup=setup),
]
