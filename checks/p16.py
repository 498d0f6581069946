"""P16 Static observables are the quantum-mechanical expectation values."""

import copy
import re

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P16"
RULE = (
    "Layouts containing a d shell (alone, with s, p or f shells in any order, 0-12 bath states each) and normalized states of 1-8 (in a part of the cases 50-600) product "
    "states with complex amplitudes are drawn (connected product states preferred, so that coherences matter). Every observable is "
    "compared with the expectation value of the matrix-built operator; ladder operators are applied and compared amplitude by amplitude; "
    "printed tables are parsed. Non-trivial: the state has at least two product states and a non-diagonal density matrix."
)
ASSUMPTIONS = ["states are normalized and contain only valid product states of the layout"]

LAYOUTS = [[2], [1, 2], [1, 2], [2, 1], [0, 2], [2, 0, 1], [1, 0, 2], [3, 2], [2, 3]]


@st.composite
def state(draw, n, dshell):
    """Product states related by moving electrons within the d shell and by unrelated ones."""
    base = draw(gens.mask(n))
    ms = [base]
    for a, b in draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=5)):
        x = ms[(a + b) % len(ms)]
        p, q = 1 << dshell[a], 1 << dshell[b]
        if x & p and not x & q:
            x ^= p | q
        elif x & q and not x & p:
            x ^= p | q
        ms.append(x)
    ms += draw(gens.masks(n, 0, 2))
    ms = list(dict.fromkeys(ms))
    num = gens.numbers() if draw(st.integers(0, 4)) else gens.scaled([1, 1e-3, 1e-5, 1e-7])
    amps = draw(st.lists(num, min_size=len(ms), max_size=len(ms)))
    return [[m, a] for m, a in zip(ms, amps)]


@st.composite
def case(draw, nstates=1):
    order = draw(st.sampled_from(LAYOUTS))
    nb = [draw(st.integers(0, 12)) if draw(st.booleans()) else 0 for _ in order]
    lab = ref.layout(dict(zip(order, nb)))
    d = [i for i, x in enumerate(lab) if len(x) == 3 and x[0] == 2]
    out = {"order": order, "nb": nb, "psis": [draw(state(len(lab), d)) for _ in range(nstates)]}
    return out


def normalized(s):
    psi = {m: complex(gens.tocplx(a)) for m, a in s}
    k = 1 / np.sqrt(sum(abs(a) ** 2 for a in psi.values()))
    return {m: a * k for m, a in psi.items()}


def dshell(nBaths, l=2):
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    return [index[x] for x in ref.shell_labels(l)], len(lab)


def clean(op):
    return {p: v for p, v in op.items() if abs(v) > 1e-14}


def operators(idx):
    L = ref.Lxyz(2)
    one = np.eye(5)
    out = {}
    for j, x in enumerate("xyz"):
        out["L" + x] = clean(ref.one_body(np.kron(np.eye(2), L[j]), idx))
        out["S" + x] = clean(ref.one_body(np.kron((ref.SX, ref.SY, ref.SZ)[j], one), idx))
    lp = ref.Lp(2)
    out["L+"] = clean(ref.one_body(np.kron(np.eye(2), lp), idx))
    out["L-"] = clean(ref.one_body(np.kron(np.eye(2), lp.T), idx))
    sp = ref.SX + 1j * ref.SY
    out["S+"] = clean(ref.one_body(np.kron(sp, one), idx))
    out["S-"] = clean(ref.one_body(np.kron(sp.conj().T, one), idx))
    for s, name in enumerate(("dn", "up")):
        P = np.zeros((2, 2))
        P[s, s] = 1
        out["eg_" + name] = clean(ref.one_body(np.kron(P, ref.P_EG), idx))
        out["t2g_" + name] = clean(ref.one_body(np.kron(P, ref.P_T2G), idx))
    return out


def density(psi, idx):
    """rho[i, j] = <psi| c_j^+ c_i |psi>"""
    n = len(idx)
    rho = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            rho[i, j] = ref.inner(psi, ref.apply({((idx[j], "c"), (idx[i], "a")): 1}, psi))
    return rho


def expect(psi, op):
    return ref.inner(psi, ref.apply(op, psi))


def sqr(psi, ops, X):
    return sum(sum(abs(a) ** 2 for a in ref.apply(ops[X + j], psi).values()) for j in "xyz")


def values(psi, idx):
    ops = operators(idx)
    return {
        "N": sum(abs(a) ** 2 * ref.popcount(m & ref.mask_of(idx)) for m, a in psi.items()),
        "occ": [expect(psi, ops[k]).real for k in ("eg_dn", "eg_up", "t2g_dn", "t2g_up")],
        "Lz": expect(psi, ops["Lz"]).real,
        "Sz": expect(psi, ops["Sz"]).real,
        "L2": sqr(psi, ops, "L"),
        "S2": sqr(psi, ops, "S"),
    }


def check(ctx, case):
    from impurityModel.ed import finite

    nBaths = dict(zip(case["order"], case["nb"]))
    idx, n = dshell(nBaths)
    psi = normalized(case["psis"][0])
    inp = ref.psi_out(psi, n)
    keep = copy.deepcopy(inp)
    w = values(psi, idx)
    ctx.label("layout %s%s" % (case["order"], " with bath" if any(case["nb"]) else ""))
    ctx.close(ctx.call(finite.getTraceDensityMatrix, nBaths, inp), w["N"], "N(3d)")
    if 1 in nBaths:
        pidx, _ = dshell(nBaths, 1)
        ctx.close(ctx.call(finite.getTraceDensityMatrix, nBaths, inp, 1), sum(abs(a) ** 2 * ref.popcount(m & ref.mask_of(pidx)) for m, a in psi.items()), "N(2p)")
    ctx.close(ctx.call(finite.getLz3d, nBaths, inp), w["Lz"], "Lz")
    ctx.close(ctx.call(finite.getSz3d, nBaths, inp), w["Sz"], "Sz")
    ctx.close(ctx.call(finite.getLsqr3d, nBaths, inp), w["L2"], "L^2")
    ctx.close(ctx.call(finite.getSsqr3d, nBaths, inp), w["S2"], "S^2")
    ctx.close(ctx.call(finite.getEgT2gOccupation, nBaths, inp), w["occ"], "e_g/t2g occupations")
    # density matrices
    for l in [2] + ([1] if 1 in nBaths else []):
        ii, _ = dshell(nBaths, l)
        rho = density(psi, ii)
        lab = ref.shell_labels(l)
        got = ctx.call(finite.getDensityMatrix, nBaths, inp, *([] if l == 2 else [l]))
        ctx.check(set(got) <= {(x, y) for x in lab for y in lab}, "getDensityMatrix: foreign key")
        ctx.close([[got.get((x, y), 0) for y in lab] for x in lab], rho, "density matrix l=%d" % l, 1e-9, 1e-13)
        if l == 2:
            ctx.nontrivial(len(psi) > 1 and np.abs(rho - np.diag(np.diag(rho))).max() > 1e-3)
            u = np.kron(np.eye(2), np.asarray(finite.get_spherical_2_cubic_matrix()))
            cub = ctx.call(finite.getDensityMatrixCubic, nBaths, inp)
            clab = [(s, i) for s in range(2) for i in range(5)]
            ctx.check(set(cub) <= {(x, y) for x in clab for y in clab}, "getDensityMatrixCubic: foreign key")
            ctx.close([[cub.get((x, y), 0) for y in clab] for x in clab], u.conj().T @ rho @ u, "cubic density matrix", 1e-9, 1e-13)
    # ladder operators
    ops = operators(idx)
    for name, f in (
        ("Sz", finite.applySz3d),
        ("Lz", finite.applyLz3d),
        ("S+", finite.applySplus3d),
        ("L+", finite.applyLplus3d),
        ("S-", finite.applySminus3d),
        ("L-", finite.applyLminus3d),
    ):
        got = ref.psi_in(ctx, ctx.call(f, nBaths, inp), n, name)
        ref.compare_states(ctx, got, ref.apply(ops[name], psi), name)
    ctx.check(inp == keep, "the state was modified")


@st.composite
def case_print(draw):
    c = draw(case(nstates=draw(st.sampled_from([1, 2, 3, 4, 4, 12]))))
    k = len(c["psis"])
    c["de"] = [draw(st.integers(0, 4000)) / 1000 for _ in range(k)]
    c["e0"] = draw(gens.reals(900))
    c["n"] = draw(st.sampled_from([None, None, 1, 2, k]))
    return c


def bigcase():
    return st.fixed_dictionaries({"order": st.sampled_from([[2], [1, 2], [2, 1], [0, 2]]), "nb": st.lists(st.integers(0, 12), min_size=2, max_size=2),
                                  "k": st.integers(50, 600), "vals": st.integers(1, 40), "seed": st.integers(0, 2**40)})


def check_big(ctx, case):
    """States of hundreds of product states."""
    import random

    from checks.p01 import many
    from impurityModel.ed import finite

    rng = random.Random(case["seed"])
    nBaths = dict(zip(case["order"], case["nb"]))
    idx, n = dshell(nBaths)
    ms = many(rng, n, case["k"])
    table = [gens.tocplx(rng.choice(gens.TABLE)) for _ in range(case["vals"])]
    amp = {m: complex(rng.choice(table)) for m in ms}
    norm = np.sqrt(sum(abs(a) ** 2 for a in amp.values()))
    psi = {m: a / norm for m, a in amp.items()}
    inp = ref.psi_out(psi, n)
    w = values(psi, idx)
    rho = density(psi, idx)
    ctx.nontrivial(np.abs(rho - np.diag(np.diag(rho))).max() > 1e-3)
    ctx.label("%s00 product states" % (len(psi) // 100))
    ctx.close(ctx.call(finite.getTraceDensityMatrix, nBaths, inp), w["N"], "N(3d)")
    ctx.close(ctx.call(finite.getLz3d, nBaths, inp), w["Lz"], "Lz")
    ctx.close(ctx.call(finite.getSz3d, nBaths, inp), w["Sz"], "Sz")
    ctx.close(ctx.call(finite.getLsqr3d, nBaths, inp), w["L2"], "L^2")
    ctx.close(ctx.call(finite.getSsqr3d, nBaths, inp), w["S2"], "S^2")
    ctx.close(ctx.call(finite.getEgT2gOccupation, nBaths, inp), w["occ"], "e_g/t2g occupations")
    lab = ref.shell_labels(2)
    got = ctx.call(finite.getDensityMatrix, nBaths, inp)
    ctx.close([[got.get((x, y), 0) for y in lab] for x in lab], rho, "density matrix")
    u = np.kron(np.eye(2), np.asarray(finite.get_spherical_2_cubic_matrix()))
    cub = ctx.call(finite.getDensityMatrixCubic, nBaths, inp)
    clab = [(s, i) for s in range(2) for i in range(5)]
    ctx.close([[cub.get((x, y), 0) for y in clab] for x in clab], u.conj().T @ rho @ u, "cubic density matrix")


NUMBER = re.compile(r"^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


def energies(case):
    return np.array(np.cumsum([case["e0"]] + case["de"][1:]))


def check_print(ctx, case):
    from impurityModel.ed import finite

    nBaths = dict(zip(case["order"], case["nb"]))
    idx, n = dshell(nBaths)
    psis = [normalized(s) for s in case["psis"]]
    es = energies(case)
    k = case["n"]
    ctx.call(finite.printExpValues, nBaths, es, [ref.psi_out(p, n) for p in psis], *([] if k is None else [k]))
    k = len(es) if k is None else min(k, len(es))
    ctx.nontrivial(k > 1)
    rows, e0 = [], None
    for line in ctx.stdout.splitlines():
        m = re.match(r"\s*E0\s*=\s*(\S+)", line)
        if m:
            e0 = float(m.group(1))
            continue
        t = line.split()
        if len(t) > 3 and all(NUMBER.match(x) for x in t):
            rows.append([float(x) for x in t])
    ctx.check(e0 is not None and abs(e0 - es[0]) < 1e-3, "printed ground state energy %r, expected %r", e0, es[0])
    ctx.check(len(rows) == k, "%d rows printed, expected %d", len(rows), k)
    for i, r in enumerate(rows):
        w = values(psis[i], idx)
        want = [i, es[i] - es[0], w["N"], *w["occ"], w["Lz"], w["Sz"], w["L2"], w["S2"]]
        tol = [0, 6e-4, 6e-3] + [6e-4] * 4 + [6e-3] * 4
        ctx.check(len(r) == len(want), "row %s has %d columns", r, len(r))
        for j, (x, y, d) in enumerate(zip(r, want, tol)):
            ctx.check(abs(x - y) <= d, "row %d column %d is %r, expected %r", i, j, x, y)


SUBS = [
    Sub("observables", lambda t: case(), check, 240, shards=6),
    Sub("big", lambda t: bigcase(), check_big, 12),
    Sub("table", lambda t: case_print(), check_print, 60, shards=2),
]
