"""P18 The Green's function equals the exact resolvent."""

import copy

import numpy as np
from hypothesis import strategies as st

from lib import gens, model, ref, systems
from lib.harness import Sub

PROP = "P18"
RULE = (
    "Hermitian operators (random one- and two-particle terms, conserving or not, real or complex), restrictions or none, normalized states, "
    "energy meshes, broadenings of either sign and algorithm variants (dict, sparse, dense; serial, distributed) are drawn; the Green's "
    "function is compared with the dense resolvent of the reference matrix over the connected product states, several states in one "
    "history sharing the store of the Hamiltonian. Tridiagonal coefficients are compared through the moments <psi|H^k|psi>. Non-trivial: "
    "the state couples to at least three eigenvalues."
)
ASSUMPTIONS = [
    "the state handed over is normalized and satisfies the restrictions",
    "random systems: up to 60 connected product states; broadening at least 0.002 up to 6 states, 0.05 up to 14 and 4 % of the spectral width "
    "above (the Lanczos recursion of the code is without re-orthogonalization and has at most 150 vectors)",
    "hundreds of connected product states: broadening at least 6 % of the spectral width",
    "chains (exact recursion): up to 100 sites, broadening at least 0.001; a Krylov space of the allowed size is required, not more",
]


@st.composite
def case(draw, tier):
    c = draw(systems.system())
    c["limit"] = 60
    step = st.fixed_dictionaries(
        {
            "amps": st.lists(gens.numbers(), min_size=1, max_size=4),
            "shift": st.integers(0, 9),
            "mode": st.sampled_from(["sparse", "sparse", "dense", "dict", "H_build", "default"]),
            "share": st.booleans(),
            "w": systems.mesh(),
            "delta": st.one_of(st.sampled_from([0.2, -0.2, 0.5, 1.0]), gens.positive(0.05, 2), gens.positive(0.002, 0.05)),
            "e": gens.reals(5),
            "krylov": st.sampled_from([0, 0, 5, 100]),
        }
    )
    c["steps"] = draw(st.lists(step, min_size=1, max_size=4))
    return c


def check(ctx, case):
    from impurityModel.ed import spectra

    n, r = case["n"], gens.torestr(case["r"])
    op = systems.hamiltonian(case)
    pool = [m for m in case["pool"] if ref.allowed(m, r)]
    if not pool or not op:
        ctx.label("no Hamiltonian")
        return
    store = {}
    op0, r0 = copy.deepcopy(op), copy.deepcopy(r)
    for s in case["steps"]:
        k = len(pool)
        psi = {}
        for j, a in enumerate(s["amps"]):
            m = pool[(j + s["shift"]) % k]
            psi[m] = gens.tocplx(a)
        psi = systems.normalized(psi)
        d = systems.dense(op, list(psi), r, case["limit"])
        if d is None:
            ctx.exclude("connected set too big")
            continue
        H, basis = d
        N = len(basis)
        v = ref.vec(psi, basis)
        E, U = np.linalg.eigh(H)
        width = max(1.0, np.ptp(E))
        delta = s["delta"]
        if N > 6 and abs(delta) < 0.05:
            delta = np.sign(delta) * 0.05
        if abs(delta) < 0.05:
            ctx.label("narrow lines")
        if N > 14:
            delta = np.sign(delta) * max(abs(delta), 0.04 * width)
        w = systems.points(s["w"]) + (0 if s["share"] else E[0] - s["e"])
        inp = ref.psi_out(psi, n)
        keep = dict(inp)
        mode = s["mode"]
        kw = {}
        if mode == "H_build":
            kw = {"parallelization_mode": "H_build"}
        elif mode != "default":
            kw = {"mode": mode}
        if s["share"] or mode == "H_build":
            kw["h_dict"] = store
            ctx.label("shared store")
        if r is not None:
            kw["restrictions"] = r
        ctx.label("mode " + mode)
        ks = 150 if s["krylov"] == 0 else N + s["krylov"]
        w0 = w.copy()
        g = ctx.call(spectra.getGreen, n, s["e"], inp, op, w, delta, ks, 0 if mode == "dict" else 1e-7, **kw)
        c2 = np.abs(U.conj().T @ v) ** 2
        lines = len(set(np.round(E[c2 > 1e-4], 6)))
        ctx.nontrivial(lines >= 3)
        ctx.label("%s lines" % (lines if lines < 5 else "5+"))
        want = ref.resolvent(H, v, w + 1j * delta + s["e"])
        ctx.close(g, want, "Green's function (%s, %d product states)" % (mode, N), 1e-7, systems.lanczos_tol(N) / abs(delta))
        ctx.check(np.all(np.sign(delta) * np.asarray(g).imag <= 1e-9 / abs(delta)), "spectral function has the wrong sign")
        ctx.check(inp == keep and np.array_equal(w, w0), "arguments modified")
        ctx.check(op == op0 and r == r0, "operator or restrictions modified")
        z = ctx.call(spectra.getGreen, n, s["e"], {}, op, w, delta, ks, 1e-7, **kw)
        ctx.close(z, np.zeros(len(w)), "Green's function of the empty state", 0, 0)


# ---------------------------------------------------------------- long chains, where the recursion is exact
@st.composite
def case_chain(draw):
    return {
        "chain": draw(systems.chain()),
        "end": draw(st.integers(0, 1)),
        "amp": draw(st.sampled_from([1.0, -1.0, [0.0, 1.0]])),
        "mode": draw(st.sampled_from(["sparse", "sparse", "dense", "dict", "H_build", "H_build", "default"])),
        "w": draw(systems.mesh()),
        "delta": draw(st.one_of(gens.positive(0.001, 0.01), gens.positive(0.001, 0.05), gens.positive(0.05, 1))),
        "sign": draw(st.sampled_from([1, 1, -1])),
        "krylov": draw(st.one_of(st.just(150), st.integers(1, 120))),
        "e": draw(gens.reals(5)),
    }


def check_chain(ctx, case):
    from impurityModel.ed import spectra

    n, op, sites, spect, masks = systems.decode_chain(case["chain"])
    if case["end"]:
        masks = masks[::-1]
    L, k = len(masks), case["krylov"]
    mode, delta = case["mode"], case["sign"] * case["delta"]
    if mode == "dict":
        k = min(k, L)
    ctx.nontrivial(L > 14 and k > 14)
    ctx.label("mode " + mode)
    ctx.label("Krylov space %s" % ("complete" if k >= L else "truncated"))
    diag = [ref.apply(op, {m: 1}).get(m, 0).real for m in masks[:2]]
    w = np.concatenate([systems.points(case["w"]), [x - case["e"] for x in diag]])  # on resonance, too
    if case["chain"].get("weak"):
        ctx.label("weak link")
    kw = {"parallelization_mode": "H_build"} if mode == "H_build" else {} if mode == "default" else {"mode": mode}
    g = ctx.call(spectra.getGreen, n, case["e"], {ref.enc(masks[0], n): gens.tocplx(case["amp"])}, op, w, delta, k, 0, **kw)
    # the first k Krylov vectors are the first k sites
    H = ref.matrix(op, masks[:k])
    v = np.zeros(len(H))
    v[0] = 1
    want = ref.resolvent(H, v, w + 1j * delta + case["e"])
    ctx.close(g, want, "Green's function of a chain of %d sites, Krylov size %d" % (L, k), 1e-7, 1e-8 / abs(delta))


# ---------------------------------------------------------------- large connected sets
def case_huge():
    return st.fixed_dictionaries({
        "sys": systems.large([(20, 2), (30, 2), (45, 2), (14, 3), (17, 3), (12, 5), (11, 5), (120, 1)]),
        "starts": st.integers(1, 60), "mode": st.sampled_from(["sparse", "dense", "dict", "H_build", "default"]),
        "w": systems.mesh(), "delta": gens.positive(0.06, 0.4), "sign": st.sampled_from([1, 1, -1]), "e": gens.reals(3), "restrict": st.booleans(),
    })  # fmt: skip


def check_huge(ctx, case):
    """Hundreds of connected product states; the broadening is at least 6 % of the spectral width."""
    from impurityModel.ed import spectra

    n = case["sys"]["n"]
    op, mask, rng = systems.decode_large(case["sys"])
    psi = systems.normalized({mask(): complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(case["starts"])})
    r = None
    if case["restrict"]:
        orbs = frozenset(range(n // 2))
        c = [ref.popcount(m & ref.mask_of(orbs)) for m in psi]
        r = {orbs: (min(c), max(c))}
    m = model.Model(op, r, 1500)
    N, width = m.extent(psi)
    delta = case["sign"] * case["delta"] * max(width, 1)
    ctx.nontrivial(N > 100)
    ctx.label("mode " + case["mode"])
    ctx.label("%d00+ product states" % (N // 100))
    mode = case["mode"]
    kw = {"parallelization_mode": "H_build"} if mode == "H_build" else {} if mode == "default" else {"mode": mode}
    if r is not None:
        kw["restrictions"] = r
    w = systems.points(case["w"])
    inp = ref.psi_out(psi, n)
    keep = dict(inp)
    g = ctx.call(spectra.getGreen, n, case["e"], inp, op, w, delta, 150 if mode != "dict" else min(N, 60), 0 if mode == "dict" else 1e-7, **kw)
    ctx.check(inp == keep, "arguments modified")
    ctx.close(g, m.resolvent(psi, w + 1j * delta + case["e"]), "Green's function (%s, %d product states)" % (mode, N), 1e-7, 1e-5 / abs(delta))


# ---------------------------------------------------------------- tridiagonal coefficients
@st.composite
def case_tri(draw):
    N = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["dense", "dense", "sparse", "blocks", "diagonal", "degenerate"]))
    ent = draw(st.lists(st.tuples(st.integers(0, N - 1), st.integers(0, N - 1), gens.cplx(2.0)), max_size=3 * N))
    diag = draw(st.lists(gens.reals(3) if kind != "degenerate" else st.sampled_from([0.0, 1.0]), min_size=N, max_size=N))
    psi = draw(st.lists(st.one_of(gens.cnonzero(2.0), st.just([0.0, 0.0])), min_size=N, max_size=N))
    return {
        "N": N,
        "kind": kind,
        "ent": ent,
        "diag": diag,
        "psi": psi,
        "k": draw(st.integers(1, 16)),
        "mode": draw(st.sampled_from(["sparse", "dense", "default"])),
        "local": draw(st.booleans()),
    }


def check_tri(ctx, case):
    import scipy.sparse

    from impurityModel.ed import finite

    N = case["N"]
    H = np.diag(np.array(case["diag"], dtype=complex))
    if case["kind"] != "diagonal":
        for i, j, z in case["ent"]:
            if case["kind"] == "blocks" and (i < N // 2) != (j < N // 2):
                continue
            H[i, j] += complex(*z)
            H[j, i] += complex(*z).conjugate()
    psi = np.array([complex(*z) for z in case["psi"]])
    if np.linalg.norm(psi) == 0:
        psi[0] = 1
    psi = psi / np.linalg.norm(psi)
    h = scipy.sparse.csr_matrix(H)
    k = case["k"]
    kw = {} if case["mode"] == "default" else {"mode": case["mode"]}
    if case["local"]:
        kw["h_local"] = True
    psi0 = psi.copy()
    res = ctx.call(finite.get_tridiagonal_krylov_vectors, h, psi, k, **kw)
    ctx.check(isinstance(res, tuple) and len(res) == 2, "not (alpha, beta)")
    alpha, beta = ctx.array(res[0], what="alpha"), ctx.array(res[1], what="beta")
    K = len(alpha)
    ctx.check(len(beta) == K - 1, "%d alpha and %d beta", K, len(beta))
    ctx.check(1 <= K <= min(k, N), "%d coefficients, Krylov size %d, matrix of size %d", K, k, N)
    ctx.check(np.all(alpha.imag == 0) and np.all(beta.imag == 0) and np.all(beta.real >= 0), "coefficients not real, or negative beta")
    ctx.check(np.array_equal(psi, psi0) and np.array_equal(h.toarray(), H), "arguments modified")
    T = np.diag(alpha.real) + np.diag(beta.real, 1) + np.diag(beta.real, -1)
    E, U = np.linalg.eigh(H)
    c2 = np.abs(U.conj().T @ psi) ** 2
    lines = 1 + int(np.sum(np.diff(np.sort(E[c2 > 1e-8])) > 1e-8))
    ctx.nontrivial(lines >= 3 and K >= 3)
    ctx.label(case["kind"])
    exhausted = lines < min(k, N)
    if exhausted:
        ctx.label("Krylov space exhausted")
    ctx.check(K >= min(lines, k, N), "only %d coefficients, though the Krylov space has dimension %d", K, lines)
    norm = max(np.abs(E).max(), 1e-3)
    Tn, En = T / norm, E / norm
    x = np.zeros(K)
    x[0] = 1
    y = x.copy()
    top = 2 * K - 1 if K < lines else 24
    for p in range(1, top + 1):
        y = Tn @ y
        ctx.check(abs(y[0] - np.sum(c2 * En**p)) < 1e-9, "moment %d of the tridiagonal matrix is %r, expected %r (%s, %d coefficients)", p, y[0], np.sum(c2 * En**p), case["kind"], K)


SUBS = [
    Sub("green", lambda t: case(t), check, 500, shards=5),
    Sub("chain", lambda t: case_chain(), check_chain, 320, shards=3),
    Sub("huge", lambda t: case_huge(), check_huge, 16),
    Sub("tridiagonal", lambda t: case_tri(), check_tri, 2000, shards=3),
]
