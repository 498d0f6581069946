"""P22 RIXS maps follow the Kramers-Heisenberg formula."""

import copy

import numpy as np
from hypothesis import strategies as st

from checks import p19
from lib import gens, ref, systems
from lib.harness import Sub

PROP = "P22"
RULE = (
    "Hermitian operators, restrictions or none, 1-3 states, 1-3 in-going and 1-3 out-going operators (forbidden ones included), energy "
    "meshes, broadenings (of either sign) and parallelization modes are drawn, optionally two maps sharing the store of the final-state Hamiltonian; every "
    "entry is compared with the Kramers-Heisenberg expression evaluated by dense linear algebra, within the rigorous error bound that "
    "follows from the tolerance of the iterative solver. Non-trivial: at least two operator pairs with different, non-zero maps that are "
    "at least a hundred times larger than the bound."
)
ASSUMPTIONS = [
    "states satisfy the restrictions and are normalized",
    "one MPI rank (several: P23)",
    "cases in which the iterative solver reports that it did not converge are not judged",
    "connected sets of up to 40 product states; broadenings at least 0.2 and, for more than 14 product states, at least 4 % of the spectral width",
]

MODES = ["serial", "H_build", "wIn", "H_build_wIn", None]


@st.composite
def case(draw):
    c = draw(systems.system(hi=12))
    n, pool = c["n"], c["pool"]
    mid = draw(gens.masks(n, 1, 3))
    c["tin"] = draw(st.lists(gens.aimed_operators(n, pool, 1, 4, maxlen=2), min_size=1, max_size=3))
    if draw(st.booleans()):
        # out-going operators: adjoints of operators of the in-going kind, so that the way back is open
        c["tout"] = [
            [[[[i, "c" if k == "a" else "a"] for i, k in reversed(p)], v] for p, v in t]
            for t in draw(st.lists(gens.aimed_operators(n, pool, 1, 4, maxlen=2), min_size=1, max_size=3))
        ]
    else:
        c["tout"] = draw(st.lists(gens.aimed_operators(n, pool + mid, 1, 4, maxlen=2), min_size=1, max_size=3))
    c["psis"] = draw(st.lists(st.tuples(st.integers(0, 9), st.lists(gens.numbers(), min_size=1, max_size=3)), min_size=1, max_size=3))
    c["es"] = [draw(gens.reals(5)) for _ in c["psis"]]
    c["wIn"] = draw(systems.mesh(draw(st.sampled_from([3, 3, 3, 3, 3, 3, 3, 3, 3, 12])), long=False))
    if draw(st.integers(0, 4)) == 0:
        # far from all resonances
        c["wIn"] = [50 * w + 20 for w in c["wIn"]]
    c["wLoss"] = draw(systems.mesh(5))
    c["d1"] = draw(st.one_of(st.sampled_from([0.5, 1.0]), gens.positive(0.2, 2)))
    c["d2"] = draw(st.one_of(st.sampled_from([0.2, 1.0]), gens.positive(0.2, 2)))
    c["mode"] = draw(st.sampled_from(MODES))
    c["twice"] = draw(st.integers(0, 3))
    c["mode2"] = draw(st.sampled_from(MODES))
    c["dark"] = draw(st.sampled_from([None, None, None, 0, 1, 2, 5, 7, 12, 25, 38]))
    c["scale"] = [draw(st.sampled_from([1, 1, 1, 1, 1e-2, 1e-4, 1e2, 1e4])) for _ in range(2)]
    c["default_cut"] = draw(st.booleans())
    c["cut"] = draw(st.sampled_from([1e-20, 1e-20, 0]))
    c["signs"] = draw(st.sampled_from([[1, 1]] * 8 + [[-1, 1], [1, -1], [-1, -1]]))
    return c


def entry(op, psi, e, tin, tout, r, wIn, wLoss, d1, d2, limit, rtol=1e-5):
    """dict with map[wIn, wLoss], bound[wIn] and the broadening needed; None if too big."""
    z = {"g": np.zeros((len(wIn), len(wLoss)), dtype=complex), "bound": np.zeros(len(wIn)), "small": np.inf, "in": np.inf, "out": np.inf, "n1": 0, "n2": 0, "w1": 0.0, "w2": 0.0}
    phi = {m: a for m, a in ref.apply(tin, psi, r).items() if abs(a) > 1e-12}
    if not phi:
        return z
    d = systems.dense(op, list(phi), r, limit)
    if d is None:
        return None
    H1, b1 = d
    y = ref.vec(phi, b1)
    one = [abs(a) for m in psi for a in ref.apply(tin, {m: 1}, r).values() if abs(a) > 1e-12]
    z["in"] = min([abs(a) for a in phi.values()] + one)
    # out-going operator from b1 to everything it reaches
    hit = {}
    for m in b1:
        for k in ref.touched(tout, {m: 1}, r):
            hit[k] = 1
    if not hit:
        return z
    d = systems.dense(op, list(hit), r, limit)
    if d is None:
        return None
    H2, b2 = d
    T = ref.matrix(tout, b2, b1)
    z["out"] = min([np.inf] + [a for a in np.abs(T).ravel() if a > 1e-12])
    normT = np.linalg.norm(T, 2)
    E1 = np.linalg.eigvalsh(H1)
    E2, U2 = np.linalg.eigh(H2)
    z.update(n1=len(b1), n2=len(b2), w1=np.ptp(E1), w2=np.ptp(E2))
    for k, w in enumerate(wIn):
        A = (w + 1j * d1 + e) * np.eye(len(b1)) - H1
        x = np.linalg.solve(A, y)
        f = T @ x
        z["small"] = min([z["small"]] + [abs(a) for a in f if abs(a) > 1e-9])
        c2 = np.abs(U2.conj().T @ f) ** 2
        z["g"][k] = (c2[None, :] / (wLoss[:, None] + 1j * d2 + e - E2[None, :])).sum(axis=1)
        # |x - x'| <= |A^-1| rtol |y|; margin 3 for the solver's updated residual
        dx = 3 * rtol * np.linalg.norm(y) / np.abs(w + 1j * d1 + e - E1).min() * normT
        z["bound"][k] = (2 * np.linalg.norm(f) * dx + dx * dx) / abs(d2) + (1e-9 if len(b2) <= 14 else systems.lanczos_tol(len(b2))) * (1 + np.linalg.norm(f) ** 2) / abs(d2)
    return z


def check(ctx, case):
    from impurityModel.ed import spectra

    s = p19.setup(ctx, case)
    if s is None:
        ctx.label("no Hamiltonian")
        return
    n, r, op, pool = s
    psis = p19.states(case, pool)
    tin = [gens.toop(t) for t in case["tin"]]
    tout = [gens.toop(t) for t in case["tout"]]
    es = list(case["es"])
    d = None if case["dark"] is None else p19.dark(case, n, pool, r)
    if d is not None:
        psis[-1] = d[0]
        tin[0] = d[1]
        if case["dark"] % 2:
            # interference in the out-going step
            tin[0] = {((0, "c"), (0, "a")): 1.0, ((0, "a"), (0, "c")): 1.0}
            tout[0] = d[1]
    wIn, wLoss = np.array(case["wIn"], dtype=float), systems.points(case["wLoss"])
    s1, s2 = case["signs"]
    d1, d2 = s1 * case["d1"], s2 * case["d2"]

    def all_entries():
        return [[[entry(op, p, e, ti, to, r, wIn, wLoss, d1, d2, 40) for to in tout] for ti in tin] for p, e in zip(psis, es)]

    ref_ = all_entries()
    flat = [x for a in ref_ for b in a for x in b]
    if any(x is None for x in flat):
        ctx.exclude("connected set too big")
        return
    need = max([0] + [0.04 * x["w1"] for x in flat if x["n1"] > 14] + [0.04 * x["w2"] for x in flat if x["n2"] > 14])
    if need > min(abs(d1), abs(d2)):
        d1, d2 = s1 * max(abs(d1), need), s2 * max(abs(d2), need)
        ref_ = all_entries()
        flat = [x for a in ref_ for b in a for x in b]
    # weaker or stronger transitions: the map scales with the squares
    fin, fout = case["scale"]
    tin = [{p: fin * v for p, v in t.items()} for t in tin]
    tout = [{p: fout * v for p, v in t.items()} for t in tout]
    # small enough for weak transitions
    kw = {"slaterWeightMin": case["cut"] * min(1, (fin * fout) ** 2 / 1e-8)}
    # the default cutoff, unless some weight comes close to it in either of the transitions
    least = min(min(x["in"] * fin, x["out"] * fout, x["small"] * fin * fout) for x in flat)
    if case["default_cut"] and least > 1e-3:
        del kw["slaterWeightMin"]
        ctx.label("default cutoff")
    if r is not None:
        kw["restrictions"] = r
    store = {}
    inp = [ref.psi_out(p, n) for p in psis]
    keep = copy.deepcopy((inp, tin, tout, es, op, r))
    strong = {tuple(np.round(x["g"].ravel(), 5)) for x in flat if np.abs(x["g"]).max() > max(1e-5, 100 * x["bound"].max())}
    ctx.nontrivial(len(strong) >= 2)
    if any(np.abs(x["g"]).max() < 1e-12 for x in flat):
        ctx.label("forbidden transition")
    runs = [case["mode"]] + ([case["mode2"]] if case["twice"] == 0 else [])
    for mode in runs:
        k2 = dict(kw)
        if mode:
            k2["parallelization_mode"] = mode
        if case["twice"] == 0 and mode in ("H_build", "serial"):
            # a store of one kind of distribution is only passed on to the same kind
            k2["h_dict_ground"] = store.setdefault(mode, {})
            ctx.label("store of the final-state Hamiltonian passed in")
        got = ctx.call(spectra.getRIXSmap, n, op, tin, tout, inp, es, wIn, wLoss, d1, d2, **k2)
        ctx.label("mode %s" % mode)
        if "not achieved" in ctx.stdout or "breakdown" in ctx.stdout:
            ctx.exclude("iterative solver did not converge")
            return
        got = ctx.array(got, (len(es), len(tin), len(tout), len(wIn), len(wLoss)), "RIXS map") / (fin * fout) ** 2
        for i in range(len(es)):
            for a in range(len(tin)):
                for b in range(len(tout)):
                    x = ref_[i][a][b]
                    err = np.abs(got[i, a, b] - x["g"]).max(axis=1)
                    k = int(np.argmax(err - x["bound"]))
                    ctx.check(
                        err[k] <= x["bound"][k] + 1e-12,
                        "map (state %d, in %d, out %d, mode %s) at wIn[%d] deviates by %.3g (error bound of the solver %.3g): %s, expected %s",
                        i, a, b, mode, k, err[k], x["bound"][k], got[i, a, b, k], x["g"][k],
                    )  # fmt: skip
        ctx.check((inp, tin, tout, es, op, r) == keep, "arguments modified")


def case_huge():
    return st.fixed_dictionaries({
        "sys": systems.large([(14, 2), (10, 3), (11, 3), (12, 3), (11, 5), (30, 1), (36, 1)]),
        "nin": st.integers(1, 2), "nout": st.integers(1, 2), "npsi": st.integers(1, 2), "starts": st.integers(1, 60), "kind": st.sampled_from(["a", "c", "move"]),
        "wIn": systems.mesh(3, long=False), "wLoss": systems.mesh(5), "d1": gens.positive(0.08, 0.4), "d2": gens.positive(0.06, 0.4), "mode": st.sampled_from(MODES),
    })  # fmt: skip


def check_huge(ctx, case):
    """Up to a few hundred connected product states; the broadening is at least 6 % of the spectral width."""
    from impurityModel.ed import spectra

    n = case["sys"]["n"]
    op, mask, rng = systems.decode_large(case["sys"])
    num = lambda: complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
    psis = [systems.normalized({mask(): num() for _ in range(case["starts"])}) for _ in range(case["npsi"])]
    es = [rng.uniform(-2, 2) for _ in psis]

    def transition(kind):
        some = rng.sample(range(n), min(n, 5))
        return {((i, "c"), (j, "a")): num() for i, j in zip(some, some[1:])} if kind == "move" else {((i, kind),): num() for i in some}

    tin = [transition(case["kind"]) for _ in range(case["nin"])]
    tout = [transition({"a": "c", "c": "a"}.get(case["kind"], "move")) for _ in range(case["nout"])]
    wIn, wLoss = np.array(case["wIn"], dtype=float), systems.points(case["wLoss"])
    # width of the spectrum: bounded by twice the sum of the moduli; the reference tells more closely
    all_entries = lambda a, b: [[[entry(op, p, e, ti, to, None, wIn, wLoss, a, b, 700) for to in tout] for ti in tin] for p, e in zip(psis, es)]
    first = [entry(op, psis[0], es[0], ti, tout[0], None, wIn[:1], wLoss[:1], 1.0, 1.0, 700) for ti in tin]
    if any(x is None for x in first):
        ctx.exclude("connected set too big")
        return
    d1, d2 = case["d1"] * max([1] + [x["w1"] for x in first]), case["d2"] * max([1] + [x["w2"] for x in first])
    ref_ = all_entries(d1, d2)
    flat = [x for a in ref_ for b in a for x in b]
    if any(x is None for x in flat):
        ctx.exclude("connected set too big")
        return
    ctx.nontrivial(max(x["n1"] for x in flat) > 60)
    ctx.label("mode %s" % case["mode"])
    inp = [ref.psi_out(p, n) for p in psis]
    keep = copy.deepcopy((inp, tin, tout, es, op))
    kw = {"parallelization_mode": case["mode"]} if case["mode"] else {}
    got = ctx.call(spectra.getRIXSmap, n, op, tin, tout, inp, es, wIn, wLoss, d1, d2, slaterWeightMin=1e-20, **kw)
    if "not achieved" in ctx.stdout or "breakdown" in ctx.stdout:
        ctx.exclude("iterative solver did not converge")
        return
    got = ctx.array(got, (len(es), len(tin), len(tout), len(wIn), len(wLoss)), "RIXS map")
    for i in range(len(es)):
        for a in range(len(tin)):
            for b in range(len(tout)):
                x = ref_[i][a][b]
                err = np.abs(got[i, a, b] - x["g"]).max(axis=1)
                k = int(np.argmax(err - x["bound"]))
                ctx.check(err[k] <= x["bound"][k] + 1e-9, "map (state %d, in %d, out %d, mode %s) at wIn[%d] deviates by %.3g (error bound of the solver %.3g)", i, a, b, case["mode"], k, err[k], x["bound"][k])
    ctx.check((inp, tin, tout, es, op) == keep, "arguments modified")


SUBS = [Sub("rixs", lambda t: case(), check, 560, shards=8), Sub("huge", lambda t: case_huge(), check_huge, 10)]
