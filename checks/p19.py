"""P19 Spectra equal the transition-operator correlation functions."""

import copy

import numpy as np
from hypothesis import strategies as st

from lib import gens, model, ref, systems
from lib.harness import Sub

PROP = "P19"
RULE = (
    "Hermitian operators, restrictions or none, 1-4 states, 1-4 transition operators (one- and two-step, conserving or not; forbidden ones "
    "included), energy meshes and broadenings are drawn; the whole array is compared, pair by pair, with dense resolvents of the reference "
    "matrix, for both parallelization modes, and a drawn sub-selection of pairs is recomputed on its own. Non-trivial: at least two pairs "
    "have spectra that differ from each other and from zero."
)
ASSUMPTIONS = [
    "states satisfy the restrictions and are normalized",
    "one MPI rank (several: P23)",
    "random systems: up to 60 connected product states; broadening at least 0.05 and, for more than 14 product states, at least 4 % of the "
    "spectral width (the Lanczos recursion of the code is without re-orthogonalization); chains (exact recursion): at least 0.002",
]


@st.composite
def case(draw):
    c = draw(systems.system(hi=16))
    n, pool = c["n"], c["pool"]
    c["t"] = draw(st.lists(gens.aimed_operators(n, pool, 1, 4, maxlen=2), min_size=1, max_size=4))
    c["psis"] = draw(
        st.lists(st.tuples(st.integers(0, 9), st.lists(gens.numbers(), min_size=1, max_size=3)), min_size=1, max_size=5)
    )
    k = len(c["psis"])
    c["es"] = [draw(gens.reals(5)) for _ in range(k)]
    if draw(st.integers(0, 2)) == 0:
        # degenerate states
        e = draw(st.lists(st.sampled_from(c["es"]), min_size=2, max_size=2))
        c["es"] = [draw(st.sampled_from(e)) for _ in range(k)]
    c["w"] = draw(systems.mesh(8))
    c["delta"] = draw(st.one_of(st.sampled_from([0.2, -0.2, 1.0]), gens.positive(0.05, 2)))
    c["mode"] = draw(st.sampled_from(["eigen_states", "H_build", None]))
    c["pick"] = draw(st.lists(st.integers(0, 99), min_size=1, max_size=3))
    c["default_cut"] = draw(st.booleans())
    c["dark"] = draw(st.sampled_from([None, None, 0, 1, 2, 5, 7, 12, 25, 38]))
    c["scale"] = draw(st.sampled_from([1, 1, 1, 1, 1e-2, 1e-4, 1e3]))
    c["cut"] = draw(st.sampled_from([1e-20, 1e-20, 0]))
    return c


def states(case, pool):
    out = []
    for shift, amps in case["psis"]:
        psi = {}
        for j, a in enumerate(amps):
            psi[pool[(j + shift) % len(pool)]] = gens.tocplx(a)
        out.append(systems.normalized(psi))
    return out


def setup(ctx, case):
    n, r = case["n"], gens.torestr(case["r"])
    op = systems.hamiltonian(case)
    pool = [m for m in case["pool"] if ref.allowed(m, r)]
    if not pool or not op:
        return None
    return n, r, op, pool


def dark(case, n, pool, r):
    """A state and a transition operator whose paths interfere destructively: (psi, t), or None."""
    m = pool[case["dark"] % len(pool)]
    occ = [i for i in range(n) if m >> i & 1]
    emp = [i for i in range(n) if not m >> i & 1]
    if not occ or len(emp) < 2:
        return None
    i, j, k = occ[case["dark"] % len(occ)], emp[case["dark"] // 3 % len(emp)], emp[(case["dark"] // 3 + 1) % len(emp)]
    m2 = m ^ (1 << i) ^ (1 << j)
    if not ref.allowed(m2, r):
        return None
    t = {((k, "c"), (i, "a")): 1.0, ((k, "c"), (j, "a")): 1.0}
    one, two = (list(ref.apply(t, {x: 1}).values())[0] for x in (m, m2))
    h = 0.5**0.5
    return {m: h, m2: -h * (one * two).real}, t


def reference(ctx, op, psi, e, t, r, w, delta, limit=60):
    """(spectrum, needed delta, tolerance) or None if too big"""
    phi = {m: a for m, a in ref.apply(t, psi, r).items() if abs(a) > 1e-12}
    if not phi:
        return np.zeros(len(w), dtype=complex), 0.0, 0.0
    d = systems.dense(op, list(phi), r, limit)
    if d is None:
        return None
    H, basis = d
    need = 0.0 if len(basis) <= 14 else 0.04 * max(1.0, np.ptp(np.linalg.eigvalsh(H)))
    return ref.resolvent(H, ref.vec(phi, basis), w + 1j * delta + e), need, systems.lanczos_tol(len(basis))


def check(ctx, case):
    from impurityModel.ed import spectra

    s = setup(ctx, case)
    if s is None:
        ctx.label("no Hamiltonian")
        return
    n, r, op, pool = s
    psis = states(case, pool)
    ts = [gens.toop(t) for t in case["t"]]
    es = list(case["es"])
    d = None if case["dark"] is None else dark(case, n, pool, r)
    if d is not None:
        psis[-1] = d[0]
        ts[0] = d[1]
        ctx.label("destructive interference")
    w = systems.points(case["w"])
    delta = case["delta"]
    need, tol = 0.0, 1e-7
    for psi, e in zip(psis, es):
        for t in ts:
            x = reference(ctx, op, psi, e, t, r, w, delta)
            if x is None:
                ctx.exclude("connected set too big")
                return
            need, tol = max(need, x[1]), max(tol, x[2])
    delta = np.sign(delta) * max(abs(delta), need)
    want = np.array([[reference(ctx, op, psi, e, t, r, w, delta)[0] for t in ts] for psi, e in zip(psis, es)])
    # smallest contribution compared with the weight cutoff
    small = min([abs(a) for psi in psis for t in ts for a in ref.apply(t, psi).values() if abs(a) > 1e-12] or [1])
    small = min([small] + [abs(a) for t in ts for m in pool for a in ref.apply(t, {m: 1}).values() if abs(a) > 1e-12])
    kw = {}
    if not (case["default_cut"] and small**2 > 1e-6):
        kw["slaterWeightMin"] = case["cut"]
    f = case["scale"] if kw else 1
    if f != 1:
        ctx.label("weak or strong transitions")
    ts = [{p: f * v for p, v in t.items()} for t in ts]
    if case["mode"]:
        kw["parallelization_mode"] = case["mode"]
    if r is not None:
        kw["restrictions"] = r
    inp = [ref.psi_out(p, n) for p in psis]
    keep = copy.deepcopy((inp, ts, es, op, r))
    wk = w.copy()
    got = ctx.call(spectra.getSpectra, n, op, ts, inp, es, w, delta, **kw)
    got = ctx.array(got, want.shape, "getSpectra") / f**2
    ctx.label("mode %s" % case["mode"])
    nz = [tuple(np.round(x, 6)) for y in want for x in y if np.abs(x).max() > 1e-6]
    ctx.nontrivial(len(set(nz)) >= 2)
    if len(nz) < want.shape[0] * want.shape[1]:
        ctx.label("forbidden transition")
    scale = max(1.0, np.abs(want).max())
    ctx.close(got, want, "getSpectra (%s)" % case["mode"], 1e-7, tol * max(scale, 1 / abs(delta)))
    ctx.check(np.all(np.sign(delta) * got.imag <= 1e-8 * max(scale, 1 / abs(delta))), "negative spectral weight")
    ctx.check((inp, ts, es, op, r) == keep and np.array_equal(w, wk), "arguments modified")
    # a selection on its own
    pairs = [(p % len(psis), (p // 7) % len(ts)) for p in case["pick"]]
    for i, j in pairs[:1]:
        one = ctx.call(spectra.getSpectra, n, op, [ts[j]], [inp[i]], [es[i]], w, delta, **kw)
        one = np.asarray(one) / f**2
        ctx.close(one.reshape(-1), np.asarray(got)[i, j], "pair computed on its own", 1e-8, tol / 10 * max(scale, 1 / abs(delta)))


@st.composite
def case_chain(draw):
    return {
        "chain": draw(systems.chain()),
        "v": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from([1, -1, [0.0, 1.0], 0.5, [0.0, -2.0], 4.0])), min_size=1, max_size=3)),
        "es": draw(st.lists(gens.reals(5), min_size=1, max_size=2)),
        "mode": draw(st.sampled_from(["eigen_states", "H_build", None])),
        "w": draw(systems.mesh()),
        "delta": draw(st.one_of(gens.positive(0.002, 0.05), gens.positive(0.05, 1))),
        "krylov": draw(st.sampled_from([None, None, None, 20, 50])),
    }


def check_chain(ctx, case):
    """An electron or hole put at one of the ends of a long chain."""
    from impurityModel.ed import spectra

    n, op, sites, spect, masks = systems.decode_chain(case["chain"])
    kind = "a" if case["chain"]["hole"] else "c"
    vs = [(k, gens.tocplx(v)) for k, v in case["v"]]
    ts = [{((sites[-k], kind),): v} for k, v in vs]
    L, w, delta, es = len(masks), systems.points(case["w"]), case["delta"], case["es"]
    ctx.nontrivial(L > 14)
    ctx.label("mode %s" % case["mode"])
    kw = {} if case["mode"] is None else {"parallelization_mode": case["mode"]}
    size = 150
    if case["krylov"]:
        kw["krylovSize"] = size = case["krylov"]
    got = ctx.call(spectra.getSpectra, n, op, ts, [{ref.enc(spect, n): 1.0}] * len(es), es, w, delta, **kw)
    got = ctx.array(got, (len(es), len(ts), len(w)), "getSpectra")
    for i, e in enumerate(es):
        for j, (k, v) in enumerate(vs):
            H = ref.matrix(op, (masks[::-1] if k else masks)[:size])
            x = np.zeros(len(H))
            x[0] = 1
            want = abs(v) ** 2 * ref.resolvent(H, x, w + 1j * delta + e)
            ctx.close(got[i, j], want, "spectrum of a chain of %d sites" % L, 1e-7, 1e-8 * abs(v) ** 2 / delta)


def case_huge():
    return st.fixed_dictionaries({
        "sys": systems.large([(20, 2), (16, 2), (14, 3), (11, 4), (12, 5), (40, 1), (30, 1)]),
        "nt": st.integers(1, 3), "npsi": st.integers(1, 3), "starts": st.integers(1, 80), "kind": st.sampled_from(["a", "c", "move"]),
        "w": systems.mesh(), "delta": gens.positive(0.06, 0.4), "sign": st.sampled_from([1, 1, -1]),
        "mode": st.sampled_from(["eigen_states", "H_build", None]), "restrict": st.booleans(),
    })  # fmt: skip


def check_huge(ctx, case):
    """Hundreds of connected product states; the broadening is at least 6 % of the spectral width."""
    from impurityModel.ed import spectra

    n = case["sys"]["n"]
    op, mask, rng = systems.decode_large(case["sys"])
    num = lambda: complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
    psis = [systems.normalized({mask(): num() for _ in range(case["starts"])}) for _ in range(case["npsi"])]
    es = [rng.uniform(-2, 2) for _ in psis]
    ts = []
    for _ in range(case["nt"]):
        some = rng.sample(range(n), min(n, 5))
        ts.append({((i, "c"), (j, "a")): num() for i, j in zip(some, some[1:])} if case["kind"] == "move" else {((i, case["kind"]),): num() for i in some})
    r = None
    if case["restrict"]:
        orbs = frozenset(range(n // 2))
        c = [ref.popcount(m & ref.mask_of(orbs)) for p in psis for m in p]
        r = {orbs: (min(c), max(c))}
    m = model.Model(op, r, 1500)
    phis = [[{k: a for k, a in ref.apply(t, p, r).items() if abs(a) > 1e-13} for t in ts] for p in psis]
    try:
        ext = [m.extent(x) for p in phis for x in p]
    except model.TooBig:
        ctx.exclude("connected set too big")
        return
    delta = case["sign"] * case["delta"] * max([1] + [x[1] for x in ext])
    N = max(x[0] for x in ext)
    ctx.nontrivial(N > 100)
    ctx.label("mode %s" % case["mode"])
    w = systems.points(case["w"])
    kw = {"slaterWeightMin": 1e-20}
    if case["mode"]:
        kw["parallelization_mode"] = case["mode"]
    if r is not None:
        kw["restrictions"] = r
    inp = [ref.psi_out(p, n) for p in psis]
    keep = copy.deepcopy((inp, ts, es, op, r))
    got = ctx.array(ctx.call(spectra.getSpectra, n, op, ts, inp, es, w, delta, **kw), (len(es), len(ts), len(w)), "getSpectra")
    ctx.check((inp, ts, es, op, r) == keep, "arguments modified")
    for i, e in enumerate(es):
        for j in range(len(ts)):
            want = m.resolvent(phis[i][j], w + 1j * delta + e)
            ctx.close(got[i, j], want, "spectrum (%s, up to %d product states)" % (case["mode"], N), 1e-7, 1e-5 * max(1, model.norm(phis[i][j]) ** 2) / abs(delta))


def check_bad(ctx, case):
    from impurityModel.ed import spectra

    ctx.nontrivial()
    op = {((0, "c"), (0, "a")): 1.0}
    ctx.raises(spectra.getSpectra, 2, op, [op], [{b"\x80": 1.0}], [1.0], np.array([0.0]), 0.1, parallelization_mode=case["mode"])


SUBS = [
    Sub("spectra", lambda t: case(), check, 700, shards=7),
    Sub("chain", lambda t: case_chain(), check_chain, 100),
    Sub("huge", lambda t: case_huge(), check_huge, 10),
    Sub("unknown-mode", lambda t: st.fixed_dictionaries({"mode": st.sampled_from(["serial ", "", "eigenstates", "hbuild"])}), check_bad, 6),
]
