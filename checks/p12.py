"""P12 The Coulomb interaction operator is the true Slater-Condon interaction."""

import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P12"
RULE = (
    "Slater-Condon parameters (any length, zero, weak, negative and equal values included) and shells (s, p, d, f in any combination of the "
    "four positions) are drawn. Operators are brought to the unique normal form and compared with Coulomb integrals obtained by "
    "numerical quadrature over own spherical harmonics; physical consequences (Racah multiplet energies, commutation with L and S, "
    "configuration average) are checked separately. Non-trivial: at least two non-vanishing parameters of different multipole order."
)
ASSUMPTIONS = ["radial integrals are real"]

LCOMB = [x for x in itertools.product(range(4), repeat=4) if sum(x) % 2 == 0]


def params(k):
    v = st.one_of(st.just(0), gens.rnumbers(), gens.rnumbers(), gens.rscaled([1, 1e-2, 1e-3, 1e-4, 1e-6]))
    return st.lists(v, min_size=k, max_size=k)


SIZES = [1] * 9 + [1e-4, 1e-9, 1e-13, 1e4]  # unit of all parameters


@st.composite
def case_u(draw):
    kind = draw(st.sampled_from(["same", "direct", "exchange", "any"]))
    if kind == "any":
        ls = list(draw(st.sampled_from(LCOMB)))
        if sum(ls) > 9:
            ls = [min(l, 2) for l in ls]
    else:
        a, b = draw(st.integers(0, 2)), draw(st.integers(0, 3))
        ls = {"same": [b] * 4, "direct": [a, b, b, a], "exchange": [a, b, a, b]}[kind]
    kmax = min(ls[0] + ls[3], ls[1] + ls[2])
    f = draw(st.sampled_from(SIZES))
    return {"kind": kind, "ls": ls, "R": [x if f == 1 else f * x for x in draw(params(kmax + 1))]}


def check_u(ctx, case):
    from impurityModel.ed import finite

    ls, R = case["ls"], case["R"]
    l1, l2, l3, l4 = ls
    ctx.label(case["kind"])
    ctx.nontrivial(sum(r != 0 for r in R) >= 2)
    R0 = list(R)
    size = max(abs(x) for x in R)
    got = ctx.call(finite.getUop, l1, l2, l3, l4, R)
    ctx.check(R == R0, "getUop modified R")
    labels = {x for l in set(ls) for x in ref.shell_labels(l)}
    ref.check_op(ctx, got, "getUop", labels)
    ref.compare_ops(ctx, got, ref.coulomb_op(l1, l2, l3, l4, R), "getUop%s R=%s" % (ls, R), scale=size)
    # without spin
    nospin = ctx.call(finite.getNoSpinUop, l1, l2, l3, l4, R)
    want = {}
    for m1, m2, m3 in itertools.product(ref.lm(l1), ref.lm(l2), ref.lm(l3)):
        m4 = m1 + m2 - m3
        if abs(m4) <= l4:
            u = ref.coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R)
            if u != 0:
                want[((l1, m1), (l2, m2), (l3, m3), (l4, m4))] = u / 2
    ctx.check(isinstance(nospin, dict), "getNoSpinUop is not a dict")
    for k in set(want) | set(nospin):
        ctx.check(abs(nospin.get(k, 0) - want.get(k, 0)) <= 1e-9 * size, "getNoSpinUop%s: %s is %r, expected %r", ls, k, nospin.get(k, 0), want.get(k, 0))
    # single elements
    for m1, m2, m3, m4 in itertools.islice(itertools.product(*[ref.lm(l) for l in ls]), 0, None, 17):
        u = ctx.call(finite.getU, l1, m1, l2, m2, l3, m3, l4, m4, R)
        ctx.check(abs(u - ref.coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R)) <= 1e-9 * size, "getU%s is %r", (l1, m1, l2, m2, l3, m3, l4, m4), u)


@st.composite
def case_gaunt(draw):
    l, lp = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    return {"l": l, "lp": lp, "k": draw(st.integers(0, l + lp + 1))}


def check_gaunt(ctx, case):
    from impurityModel.ed import finite

    k, l, lp = case["k"], case["l"], case["lp"]
    ctx.nontrivial(0 < k <= l + lp and (k + l + lp) % 2 == 0 and k >= abs(l - lp))
    for m in ref.lm(l):
        for mp in ref.lm(lp):
            g = ctx.call(finite.gauntC, k, l, m, lp, mp)
            w = ref.ck(k, l, m, lp, mp)
            ctx.check(abs(g - w) < 1e-10, "gauntC(%d,%d,%d,%d,%d) is %r, expected %r", k, l, m, lp, mp, g, w)


@st.composite
def case_pd(draw):
    c = {"Fdd": draw(params(5)), "Fpp": draw(params(3)), "Fpd": draw(params(3)), "Gpd": draw(params(4))}
    if draw(st.integers(0, 3)) == 0:
        # coinciding values of different kinds
        x = draw(gens.rnumbers())
        for k in c:
            c[k] = [x if draw(st.booleans()) else y for y in c[k]]
    if draw(st.integers(0, 4)) == 0:
        # trailing parameters left out
        for k in c:
            c[k] = c[k][: draw(st.integers(1, len(c[k])))]
    f = draw(st.sampled_from(SIZES))
    if f != 1:
        for k in ("Fdd", "Fpp", "Fpd", "Gpd"):
            c[k] = [f * x for x in c[k]]
    c["tuple"] = draw(st.booleans())
    c["masks"] = draw(gens.masks(16, 1, 3))
    return c


def check_pd(ctx, case):
    from impurityModel.ed import finite

    kinds = ("Fdd", "Fpp", "Fpd", "Gpd")
    P = {k: (tuple(case[k]) if case["tuple"] else list(case[k])) for k in kinds}
    ctx.nontrivial(sum(x != 0 for k in kinds for x in P[k]) >= 4)
    got = ctx.call(finite.get2p3dSlaterCondonUop, **P)
    labels = ref.shell_labels(1) + ref.shell_labels(2)
    size = max(abs(x) for k in kinds for x in P[k])
    ref.check_op(ctx, got, "get2p3dSlaterCondonUop", set(labels))
    ref.compare_ops(ctx, got, ref.coulomb_2p3d(*[P[k] for k in kinds]), "get2p3dSlaterCondonUop(%s)" % P, scale=size)
    index = {x: i for i, x in enumerate(labels)}
    op = ref.reindex(got, index)
    # Hermitian and number conserving as they stand (the simulation insists on it).
    for p, v in op.items():
        q = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        ctx.check(q in op and op[q] == np.conj(v), "not exactly Hermitian: %s %r %r", p, v, op.get(q))
    # commutes with total L and S on a random state
    psi = {m: 1.0 + 0.5 * i for i, m in enumerate(case["masks"])}
    for name, op1 in total_am(index).items():
        a = ref.apply(op, ref.apply(op1, psi))
        b = ref.apply(op1, ref.apply(op, psi))
        s = 1e-8 * (1 + sum(abs(x) for x in a.values()))
        for m in set(a) | set(b):
            ctx.check(abs(a.get(m, 0) - b.get(m, 0)) < s, "does not commute with total %s", name)


def total_am(index):
    out = {}
    for j, n in enumerate(("x", "y", "z")):
        L, S = {}, {}
        for l in (1, 2):
            idx = [index[x] for x in ref.shell_labels(l)]
            L.update(ref.one_body(np.kron(np.eye(2), ref.Lxyz(l)[j]), idx))
            S.update(ref.one_body(np.kron((ref.SX, ref.SY, ref.SZ)[j], np.eye(2 * l + 1)), idx))
        out["L" + n] = {p: v for p, v in L.items() if abs(v) > 1e-14}
        out["S" + n] = {p: v for p, v in S.items() if abs(v) > 1e-14}
    return out


def check_multiplet(ctx, case):
    """d^2 (and d^8, by particle-hole symmetry), p^2 multiplets and configuration averages."""
    from impurityModel.ed import finite

    F = case["F"]
    ctx.nontrivial(sum(x != 0 for x in F) >= 2)
    if case["l"] == 2:
        F0, _, F2, _, F4 = F
        A, B, C = F0 - 49 * F4 / 441, F2 / 49 - 5 * F4 / 441, 35 * F4 / 441
        terms = [(21, A - 8 * B), (9, A + 7 * B), (9, A + 4 * B + 2 * C), (5, A - 3 * B + 2 * C), (1, A + 14 * B + 7 * C)]
        pd = {"Fdd": F, "Fpp": [0] * 3, "Fpd": [0] * 3, "Gpd": [0] * 4}
    else:
        F0, _, F2 = F
        terms = [(9, F0 - 5 * F2 / 25), (5, F0 + F2 / 25), (1, F0 + 10 * F2 / 25)]
        pd = {"Fdd": [0] * 5, "Fpp": F, "Fpd": [0] * 3, "Gpd": [0] * 4}
    labels = ref.shell_labels(case["l"])
    n = len(labels)
    index = {x: i for i, x in enumerate(labels)}
    op = ref.reindex(ctx.call(finite.get2p3dSlaterCondonUop, **pd), index)
    want = np.sort(np.concatenate([[e] * d for d, e in terms]))
    M = ref.matrix(op, ref.all_masks(n, 2))
    ctx.check(np.allclose(M, M.conj().T, atol=1e-10), "two-electron matrix is not Hermitian")
    ctx.close(np.linalg.eigvalsh(M), want, "multiplet energies of two electrons", 1e-8, 1e-8)
    # two holes: shifted by (N electrons) x mean interaction
    holes = ref.matrix(op, ref.all_masks(n, n - 2))
    shift = np.mean(want) * (n - 2) * (n - 3) / 2 - np.mean(want)
    ctx.close(np.linalg.eigvalsh(holes), want + shift, "multiplet energies of two holes", 1e-8, 1e-7)
    ctx.close(ref.matrix(op, [(1 << n) - 1])[0, 0], np.mean(want) * n * (n - 1) / 2, "energy of the full shell", 1e-8, 1e-7)


def case_multiplet(tier):
    return st.one_of(
        params(5).map(lambda F: {"l": 2, "F": F}),
        params(5).map(lambda F: {"l": 2, "F": F}),
        params(3).map(lambda F: {"l": 1, "F": F}),
    )


SUBS = [
    Sub("getUop", lambda t: case_u(), check_u, 150, shards=3),
    Sub("2p3d", lambda t: case_pd(), check_pd, 90, shards=3),
    Sub("gauntC", lambda t: case_gaunt(), check_gaunt, 80),
    Sub("multiplets", case_multiplet, check_multiplet, 60),
]
