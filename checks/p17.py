"""P17 Thermal averages are Boltzmann averages at the requested temperature."""

import re

import numpy as np
from hypothesis import strategies as st

from checks import p16
from lib import gens, ref
from lib.harness import Sub

PROP = "P17"
RULE = (
    "Energies (any order, common offset, degeneracies, spreads from far below to far above k_B T), temperatures from 1 K to 1e5 K and "
    "observables (scalars, vectors, matrices; real and complex) are drawn and averaged with exactly computed weights; shifts, permutations "
    "and constant observables are metamorphic relations. Averages of up to 400 states and large arrays are included. Printed tables are parsed and compared. Non-trivial: at least two states carry "
    "more than a thousandth of the weight."
)
ASSUMPTIONS = ["temperature is positive", "energies handed to printThermalExpValues ascend"]

KB = 8.617333262e-5


def weights(es, T):
    e = np.asarray(es, dtype=float)
    w = np.exp(-(e - e.min()) / (KB * T))
    return w / w.sum()


@st.composite
def case(draw):
    k = draw(st.integers(1, 8))
    T = draw(st.one_of(st.sampled_from([300, 1, 10, 1000, 100000, 77.5]), gens.positive(1, 2000), gens.positive(0.05, 10)))
    unit = KB * T
    es = [draw(st.integers(-6000, 6000)) / 1000 * unit * draw(st.sampled_from([1, 1, 1, 0, 0.01, 300])) for _ in range(k)]
    shape = draw(st.sampled_from([[], [], [1], [3], [4], [2, 3], [1, 1], [2, 2, 2]]))
    size = int(np.prod(shape)) if shape else 1
    return {
        "T": T,
        "es": es,
        "offset": draw(st.sampled_from([0, 0, -250.5, 1e4, 3.25])),
        "shape": shape,
        "cplx": draw(st.booleans()),
        "obs": [[draw(gens.cplx(9.0)) for _ in range(size)] for _ in range(k)],
        "asarray": draw(st.booleans()),
        "drop": draw(st.integers(0, 9)),
        "perm": draw(st.integers(0, 1000)),
    }


def check(ctx, case):
    from impurityModel.ed import average

    T, es = case["T"], [e + case["offset"] for e in case["es"]]
    obs = [np.array([complex(*z) if case["cplx"] else z[0] for z in o]).reshape(case["shape"]) for o in case["obs"]]
    if not case["shape"]:
        obs = [o.item() for o in obs]
    w = weights(es, T)
    ctx.nontrivial((w > 1e-3).sum() > 1)
    ctx.label("shape %s" % case["shape"])
    conv = (lambda x: np.array(x)) if case["asarray"] else list
    E, O = conv(es), conv(obs)
    e0, o0 = [float(x) for x in E], np.array(O)
    scale = max(1.0, np.abs(np.array(obs)).max())
    # the weights can only be as accurate as differences of the energies handed over
    tol = 1e-6 + 1e-11 * max(map(abs, es)) / (KB * T)
    want = np.tensordot(w, np.array(obs), 1)
    kw = {} if T == 300 else {"T": T}
    got = ctx.call(average.thermal_average, E, O, **kw)
    ctx.close(got, want, "thermal average", tol, tol * scale)
    ctx.check([float(x) for x in E] == e0 and np.array_equal(np.array(O), o0), "arguments modified")
    # metamorphic: order, common shift, constants
    perm = np.random.default_rng(case["perm"]).permutation(len(es))
    ctx.close(ctx.call(average.thermal_average, conv([es[i] for i in perm]), conv([obs[i] for i in perm]), **kw), got, "permuted", tol, tol * scale)
    ctx.close(ctx.call(average.thermal_average, conv(case["es"]), O, **kw), got, "shifted", tol, tol * scale)
    ctx.close(ctx.call(average.thermal_average, E, conv([1.5] * len(es)), **kw), 1.5, "constant", 1e-12, 1e-12)
    if case["drop"] < 3:
        ctx.label("mismatch")
        bad = conv(obs[:-1]) if case["drop"] == 0 and len(obs) > 1 else conv(obs + obs[:1])
        e = ctx.raises(average.thermal_average, E, bad, **kw)
        ctx.check(isinstance(e, ValueError), "mismatching lengths raise %r", type(e))


def case_many():
    return st.fixed_dictionaries({
        "k": st.integers(5, 400), "shape": st.lists(st.integers(1, 12), max_size=3), "long": st.sampled_from([1, 1, 1, 500]), "seed": st.integers(0, 2**40),
        "T": st.one_of(st.sampled_from([300, 1000]), gens.positive(1, 3000)), "spread": st.sampled_from([0, 0.01, 1, 5, 50, 1000]), "groups": st.integers(1, 60),
        "offset": st.sampled_from([0, -250.5, 3.25]), "cplx": st.booleans(), "sort": st.booleans(), "weak": st.sampled_from([1, 1, 1e-6, 1e-12]),
    })  # fmt: skip


def check_many(ctx, case):
    """Many states, also degenerate ones, and observables with many components."""
    from impurityModel.ed import average

    rng = np.random.default_rng(case["seed"])
    T, k = case["T"], case["k"]
    levels = rng.uniform(0, 1, case["groups"]) * case["spread"] * KB * T
    es = rng.choice(levels, k) + case["offset"]
    if case["sort"]:
        es = np.sort(es)
    shape = (k, *case["shape"]) + ((case["long"],) if case["long"] > 1 else ())
    if np.prod(shape) > 400000:
        shape = shape[:2]
    obs = rng.normal(size=shape) + (1j * rng.normal(size=shape) if case["cplx"] else 0)
    obs = obs * case["weak"]
    w = weights(es, T)
    ctx.nontrivial((w > 1e-4).sum() > 8)
    ctx.label("%d+ states" % (k // 100 * 100))
    e0, o0 = es.copy(), obs.copy()
    got = ctx.call(average.thermal_average, es, obs, T=T)
    ctx.check(np.array_equal(e0, es) and np.array_equal(o0, obs), "arguments modified")
    # the weights can only be as accurate as the energies handed over
    tol = 1e-6 + 1e-11 * np.abs(es).max() / (KB * T)
    ctx.close(got, np.tensordot(w, obs, 1), "thermal average of %d states" % k, tol, tol * case["weak"])


@st.composite
def case_print(draw):
    c = draw(p16.case(nstates=draw(st.sampled_from([1, 2, 3, 4, 5, 12]))))
    k = len(c["psis"])
    c["T"] = draw(st.one_of(st.sampled_from([300, 300, 10, 1000, 5, 2, 0.5]), gens.positive(20, 3000), gens.positive(0.1, 15)))
    c["cut"] = draw(st.sampled_from([None, None, 1, 2.5, 10, 30]))
    # in units of k_B T, away from the cut-off (1, 2.5, 10, 30)
    steps = st.sampled_from([0, 0.1, 0.3, 0.45, 0.7, 1.1, 2.3, 4.7, 9.3, 25.7])
    u, tot = [0.0], 0.0
    for _ in range(k - 1):
        tot += draw(steps)
        u.append(tot)
    c["u"] = u
    c["e0"] = draw(gens.reals(90))
    return c


NAMES = ["E-E0", "N(3d)", "N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)", "Lz(3d)", "Sz(3d)", "L^2(3d)", "S^2(3d)"]


def check_print(ctx, case):
    from impurityModel.ed import finite

    nBaths = dict(zip(case["order"], case["nb"]))
    idx, n = p16.dshell(nBaths)
    psis = [p16.normalized(s) for s in case["psis"]]
    T = case["T"]
    es = case["e0"] + np.array(case["u"]) * KB * T
    cut = 10 if case["cut"] is None else case["cut"]
    if any(abs(u - cut) < 0.05 for u in case["u"]):
        ctx.label("state at the cut-off")
        return
    kw = {}
    if T != 300:
        kw["T"] = T
    if case["cut"] is not None:
        kw["cutOff"] = cut
    ctx.call(finite.printThermalExpValues, nBaths, es, [ref.psi_out(p, n) for p in psis], **kw)
    sel = [i for i, u in enumerate(case["u"]) if u < cut]
    w = weights(es[sel], T)
    ctx.nontrivial((w > 1e-3).sum() > 1)
    if len(sel) < len(es):
        ctx.label("some states cut off")
    vals = [p16.values(psis[i], idx) for i in sel]
    av = lambda f: float(sum(x * f(v) for x, v in zip(w, vals)))
    want = [float(np.dot(w, es[sel] - es[0])), av(lambda v: v["N"])] + [av(lambda v: v["occ"][j]) for j in range(4)]
    want += [av(lambda v: v[k]) for k in ("Lz", "Sz", "L2", "S2")]
    got = {}
    for line in ctx.stdout.splitlines():
        m = re.match(r"\s*<([^>]*)>\s*=\s*(\S+)\s*$", line)
        if m:
            got[m.group(1)] = float(m.group(2))
    for name, v in zip(NAMES, want):
        ctx.check(name in got, "<%s> not printed", name)
        ctx.check(abs(got[name] - v) <= 6e-4, "<%s> printed as %r, expected %r (T=%r)", name, got[name], v, T)


SUBS = [
    Sub("average", lambda t: case(), check, 2400, shards=4),
    Sub("many", lambda t: case_many(), check_many, 400),
    Sub("printed", lambda t: case_print(), check_print, 240, shards=4),
]
