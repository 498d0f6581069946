"""P11 The returned eigenstates are the lowest eigenpairs of the Hamiltonian."""

import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P11"
RULE = (
    "Hermitian operators (random one- and two-particle terms plus on-site energies; real or complex; with constructed degeneracies or "
    "without), bases of 1-80 (in a part of the cases up to 200, in a few up to 1200) product states, numbers of requested states and weight cutoffs are drawn. Returned energies and states are "
    "compared with a dense diagonalization of the reference matrix: exact comparison of energies, projection on the eigenspace, weight "
    "lost to the cutoff, mutual overlaps. Non-trivial: at least two states are requested from a matrix with off-diagonal elements."
)
ASSUMPTIONS = [
    "1 <= number of requested states <= size of the basis",
    "iterative diagonalization: which copies of a degenerate level are found is only required when the lowest levels are separated "
    "(recorded as a known finding); every returned pair must be a genuine eigenpair in any case",
]

FIXTURES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")


@st.composite
def case(draw, mode, big):
    n = draw(gens.n_orbitals(20 if not big else 17, lo=1 if mode == "full" else 3))
    lo = 1 if mode == "full" else 4
    pool = draw(gens.masks(n, min(lo, 1 << n), 40 if not big else 80))
    kind = draw(st.sampled_from(["generic", "generic", "generic", "degenerate", "integer"]))
    value = None if kind != "integer" else st.sampled_from([1, -1, 2, 0.5])
    op = draw(gens.aimed_operators(n, pool, 2, 14, value=value if value or draw(st.integers(0, 4)) else gens.nearly_real()))
    weak = draw(st.integers(0, 4)) == 0
    if weak:
        # weak, complex couplings between strongly split real levels
        f = draw(st.sampled_from([1e-2, 1e-3, 1e-4]))
        op = [[q, [f * x for x in v] if isinstance(v, list) else v] for q, v in op]
    onsite = [draw(gens.reals(4)) if kind == "generic" else draw(st.sampled_from([0, 1, -1])) for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        # all levels far above or below zero
        x = draw(st.sampled_from([6, 10, -8])) * 2 ** draw(st.integers(0, 3))
        onsite = [e + x for e in onsite]
    c = {"n": n, "basis": pool, "op": op, "onsite": onsite, "kind": kind, "mode": mode}
    # hopping through the basis itself, so that the matrix is not diagonal
    c["link"] = draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), gens.scaled([1, 1, 1, 1e-2, 1e-4]) if weak else gens.numbers()), max_size=12))
    c["k"] = draw(st.integers(1, 12))
    c["all"] = draw(st.integers(0, 4))
    c["cut"] = draw(st.sampled_from([None, 0, 1e-20, 1e-12, 1e-3, 0.02]))
    c["default_mode"] = draw(st.booleans())
    return c


def link(a, b):
    """A process that turns product state a into b (annihilate a \\ b, create b \\ a)."""
    return tuple((i, "c") for i in ref.bits(b & ~a)) + tuple((i, "a") for i in ref.bits(a & ~b))


def hamiltonian(case):
    op = gens.toop(case["op"])
    basis = case["basis"]
    for i, j, v in case["link"]:
        a, b = basis[i % len(basis)], basis[j % len(basis)]
        if a != b:
            p = link(a, b)
            op[p] = op.get(p, 0) + gens.tocplx(v)
    op = gens.hermitian_part(op)
    for i, e in enumerate(case["onsite"]):
        if e:
            p = ((i, "c"), (i, "a"))
            op[p] = op.get(p, 0) + e
    return {p: v for p, v in op.items() if v != 0}


def verify(ctx, es, psis, H, basis, n, k, cut, etol, complete=True):
    """complete=False: copies of degenerate levels may be missing. Returns True if some are."""
    E, U = np.linalg.eigh(H)
    norm = max(1.0, np.abs(E).max())
    es = ctx.array(es, what="energies")
    ctx.check(es.ndim == 1 and len(es) == k, "%d energies returned, %d requested (basis of %d)", es.size, k, len(basis))
    ctx.check(len(psis) == k, "%d states returned, %d requested", len(psis), k)
    ctx.check(np.abs(es.imag).max() < 1e-9 * norm, "complex energies")
    es = es.real
    ctx.check(np.all(np.diff(es) >= -1e-9 * norm), "energies not in ascending order: %s", es)
    tol = etol * norm
    missing = False
    if complete:
        ctx.close(es, E[:k], "energies", 0, tol)
    else:
        ctx.check(abs(es[0] - E[0]) < tol, "ground state energy %r, expected %r", es[0], E[0])
        for e in es:
            ctx.check(np.abs(E - e).min() < tol, "%r is not an eigenvalue", e)
        for e in es:
            ctx.check((np.abs(es - e) < tol).sum() <= (np.abs(E - e) < 2 * tol).sum(), "eigenvalue %r returned too often", e)
        missing = bool(np.abs(es - E[:k]).max() > tol)
    index = {m: i for i, m in enumerate(basis)}
    vs, lost = [], []
    for e, psi in zip(es, psis):
        got = ref.psi_in(ctx, psi, n, "eigenstate")
        ctx.check(set(got) <= set(basis), "eigenstate leaves the basis")
        v = ref.vec(got, basis)
        w = np.abs(v) ** 2
        ctx.check(all(abs(a) ** 2 >= cut * (1 - 1e-6) for a in got.values()), "weight below the cutoff %g kept: %g", cut, min([abs(a) ** 2 for a in got.values()] or [0]))
        d2 = 1 - w.sum()
        ctx.check(-1e-8 <= d2 <= (len(basis) - len(got)) * cut + 1e-8, "squared norm %.12g of an eigenstate (cutoff %g, %d product states absent)", w.sum(), cut, len(basis) - len(got))
        d2 = max(d2, 0)
        sel = np.abs(E - e) < 1e-4 * norm
        out = v - U[:, sel] @ (U[:, sel].conj().T @ v)
        ctx.check(np.linalg.norm(out) <= np.sqrt(d2) + 2e-4, "state of energy %r is not an eigenstate (component %.3g outside the eigenspace)", e, np.linalg.norm(out))
        r = np.linalg.norm(H @ v - e * v)
        ctx.check(r <= 2.1 * norm * np.sqrt(d2) + max(1e-6, 10 * etol) * norm, "residual %.3g of the state with energy %r", r, e)
        # expectation value: second order in the error
        vs.append(v)
        lost.append(np.sqrt(d2))
    for i in range(k):
        for j in range(i):
            lim = lost[i] + lost[j] + lost[i] * lost[j] + 1e-6
            ctx.check(abs(np.vdot(vs[i], vs[j])) <= lim, "states %d and %d overlap by %.3g", j, i, abs(np.vdot(vs[i], vs[j])))
    return missing


def check(ctx, case):
    from impurityModel.ed import finite

    n, basis, mode = case["n"], case["basis"], case["mode"]
    N = len(basis)
    op = hamiltonian(case)
    H = ref.matrix(op, basis)
    E = np.linalg.eigvalsh(H)
    norm = max(1.0, np.abs(E).max())
    k = N if case["all"] == 0 and mode == "full" else max(1, N - 1) if case["all"] == 1 and mode == "full" else min(case["k"], N)
    if mode == "all":
        k = max(1, N - case["all"] % 2)
    iterative = mode == "Lanczos" and k < N - 1
    if iterative and np.ptp(E) < 1e-3:
        ctx.exclude("multiple of the unit matrix")
        return
    complete = True
    if iterative:
        gaps = np.diff(E[: k + 1])
        complete = bool(gaps.min() > 1e-3 * np.ptp(E))
        ctx.label("separated levels" if complete else "degenerate levels")
    off = np.abs(H - np.diag(np.diag(H))).max()
    ctx.nontrivial(k > 1 and off > 1e-3)
    ctx.label("%s, k%sN-1" % (mode, ">=" if k >= N - 1 else "<"))
    if N == 1:
        ctx.label("one-dimensional")
    cut = 1e-7 if case["cut"] is None else case["cut"]
    kw = {} if case["cut"] is None else {"slaterWeightMin": cut}
    gmode = "full" if mode == "full" else "Lanczos"
    if not (gmode == "Lanczos" and case["default_mode"]):
        kw["groundDiagMode"] = gmode
    b = tuple(ref.enc(m, n) for m in basis)
    op0 = copy.deepcopy(op)
    try:
        es, psis = ctx.call(finite.eigensystem, n, op, b, k, **kw)
    except Exception as e:
        if "ArpackNoConvergence" in str(e):
            ctx.exclude("ARPACK did not converge")
            return
        raise
    ctx.check(op == op0, "the operator was modified")
    verify(ctx, es, psis, H, basis, n, k, cut, 1e-10 if not iterative else 1e-7, complete)


def bigcase(mode, sizes=(30, 200), orbitals=8):
    return st.fixed_dictionaries({
        "n": gens.n_orbitals(40, lo=orbitals), "size": st.integers(*sizes), "procs": st.integers(5, 60), "vals": st.integers(2, 40),
        "seed": st.integers(0, 2**40), "k": st.integers(1, 12), "mode": st.just(mode), "cut": st.sampled_from([None, 0, 1e-12, 1e-3]), "shift": st.sampled_from([0, 0, 20, -20]),
    })  # fmt: skip


def check_big(ctx, case):
    """Larger bases."""
    import random

    from checks.p01 import many
    from impurityModel.ed import finite

    rng = random.Random(case["seed"])
    n, mode = case["n"], case["mode"]
    basis = many(rng, n, case["size"])
    table = [gens.tocplx(rng.choice(gens.TABLE)) for _ in range(case["vals"])]
    op = {}
    for _ in range(case["procs"]):
        a, b = rng.sample(basis, 2)
        if ref.popcount(a ^ b) <= 6:
            p = link(a, b)
        else:
            p = tuple(map(tuple, gens._process([rng.randrange(8 * n) for _ in range(rng.randint(2, 5))], n, basis, 4, False)))
        op[p] = op.get(p, 0) + rng.choice(table)
    op = gens.hermitian_part(op)
    for i in range(n):
        p = ((i, "c"), (i, "a"))
        op[p] = op.get(p, 0) + rng.uniform(-3, 3) + case["shift"]
    rng.shuffle(basis)
    N = len(basis)
    H = ref.matrix(op, basis)
    E = np.linalg.eigvalsh(H)
    k = min(case["k"], N) if mode != "all" else N - case["k"] % 2
    iterative = mode == "Lanczos" and k < N - 1
    gaps = np.diff(E[: k + 1])
    complete = not iterative or not len(gaps) or bool(gaps.min() > 1e-3 * np.ptp(E))
    ctx.label(mode)
    ctx.nontrivial(k > 1 and np.abs(H.imag).max() > 1e-3)
    cut = 1e-7 if case["cut"] is None else case["cut"]
    kw = {} if case["cut"] is None else {"slaterWeightMin": cut}
    if mode == "full":
        kw["groundDiagMode"] = "full"
    b = tuple(ref.enc(m, n) for m in basis)
    try:
        es, psis = ctx.call(finite.eigensystem, n, op, b, k, **kw)
    except Exception as e:
        if "ArpackNoConvergence" in str(e):
            ctx.exclude("ARPACK did not converge")
            return
        raise
    verify(ctx, es, psis, H, basis, n, k, cut, 1e-10 if not iterative else 1e-7, complete)


# ---------------------------------------------------------------- known finding
def load():
    with open(os.path.join(FIXTURES, "nio_cf_145.json")) as f:
        d = json.load(f)
    op = {tuple((i, k) for i, k in p): complex(*v) for p, v in d["op"]}
    return d["n"], op, d["basis"]


def check_known(ctx, case):
    from impurityModel.ed import finite

    n, op, basis = load()
    H = ref.matrix(op, basis)
    b = tuple(ref.enc(m, n) for m in basis)
    k = case["k"]
    ctx.nontrivial()
    for mode in ("full", "Lanczos"):
        es, psis = ctx.call(finite.eigensystem, n, op, b, k, groundDiagMode=mode)
        if verify(ctx, es, psis, H, basis, n, k, 1e-7, 1e-7, complete=mode == "full"):
            ctx.exclude("known:lanczos-degenerate")


SUBS = [
    Sub("nio", lambda t: st.just({"k": 5}), check_known, 1, 1),
    Sub("full", lambda t: case("full", t != "quick"), check, 500, shards=2),
    Sub("iterative", lambda t: case("Lanczos", True), check, 800, shards=4),
    Sub("iterative-all", lambda t: case("all", False), check, 200),
    Sub("big-full", lambda t: bigcase("full"), check_big, 40),
    Sub("big-iterative", lambda t: bigcase("Lanczos"), check_big, 60),
    Sub("big-all", lambda t: bigcase("all"), check_big, 15),
    Sub("huge-full", lambda t: bigcase("full", (400, 700), 14), check_big, 2),
    Sub("huge-iterative", lambda t: bigcase("Lanczos", (400, 1200), 14), check_big, 4),
]
