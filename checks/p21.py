"""P21 The NIXS operator is the plane-wave matrix element for every direction."""

from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P21"
RULE = (
    "Scattering vectors (along the axes and diagonals, in the coordinate planes, all octants, generic; |q| from 0.01 to 8), shells li, lj, "
    "lowest multipoles, radial functions (real and complex) and meshes are drawn; matrix elements are compared with a direct numerical integration of "
    "exp(iq.r) over the sphere (no multipole expansion), minus the multipoles that are left out. Non-trivial: at least two Cartesian "
    "components of q are non-zero and a multipole above the lowest one contributes."
)
ASSUMPTIONS = ["q is not zero", "radial mesh and functions are ndarrays", "the operator carries the fixed factor 1/sqrt(4 pi)"]

SPECIAL = [
    [1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1],
    [-1, -1, 1], [-1, -1, -1], [1, 1, 0], [0, 1, 1], [-1, 0, 1], [1, 0, -1], [-1, 1, 0], [0, -1, -1], [1, -2, 0], [-2, -1, 0],
]  # fmt: skip


@st.composite
def qvec(draw):
    if draw(st.booleans()):
        d = draw(st.sampled_from(SPECIAL))
    else:
        d = [draw(gens.reals(1)) for _ in range(3)]
        if sum(abs(x) for x in d) < 0.05:
            d = [0.3, -0.7, 0.2]
    L = draw(st.one_of(st.sampled_from([1.0, 2.0, 7.0]), gens.positive(0.01, 8)))
    n = np.linalg.norm(d)
    return [float(x / n * L) for x in d]


@st.composite
def case(draw):
    ls = draw(st.sampled_from([[1, 2], [1, 2], [2], [0, 2], [2, 1], [1, 2, 3]]))
    li, lj = draw(st.sampled_from(ls)), draw(st.sampled_from(ls))
    if 2 in ls and draw(st.booleans()):
        li = lj = 2
    npts = draw(st.integers(2, 30))
    rmax = draw(st.sampled_from([1.0, 2.5, 4.0]))
    return {
        "ls": ls,
        "nb": [draw(st.sampled_from([0, 0, 3, 10])) for _ in ls],
        "li": li,
        "lj": lj,
        "qs": draw(st.lists(qvec(), min_size=1, max_size=3)),
        "kmin": draw(st.sampled_from([None, None, 1, 0, 0, 2, 3])),
        "n": npts,
        "rmax": rmax,
        "mesh": draw(st.sampled_from(["linear", "log", "from-zero"])),
        "ri": [draw(st.integers(0, 4)), draw(gens.positive(0.3, 3))],
        "rj": [draw(st.integers(0, 4)), draw(gens.positive(0.3, 3))],
        "complex": [draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [1, 0.3], [2, -0.7], [1.57, 0]])) for _ in range(2)],
        "qtype": draw(st.sampled_from(["list", "tuple", "array"])),
    }


def radial(case):
    n, rmax = case["n"], case["rmax"]
    if case["mesh"] == "log":
        r = np.geomspace(1e-4, rmax, n)
    elif case["mesh"] == "linear":
        r = np.linspace(0.05, rmax, n)
    else:
        r = np.linspace(0.0, rmax, n)
    f = [r**p * np.exp(-a * r) * (1 - 0.3 * r) + 0.1 for p, a in (case["ri"], case["rj"])]
    for i, (a, b) in enumerate(case.get("complex", ())):
        if a or b:
            f[i] = f[i] * np.exp(1j * a) * (1 + 1j * b * r)
    return r, f[0], f[1]


def bessel(k, x):
    """spherical Bessel function through its integral representation (no scipy)."""
    t, w = np.polynomial.legendre.leggauss(60)
    P = np.polynomial.legendre.Legendre.basis(k)(t)
    return ((-1j) ** k / 2 * np.sum(w * P * np.exp(1j * np.outer(np.atleast_1d(x), t)), axis=1)).real


_Y = {}


def harmonics(l):
    if l not in _Y:
        x, p, w = ref._quad(40)
        s = np.sqrt(1 - x * x)
        _Y[l] = (np.array([ref.ylm(l, m, x, p) for m in ref.lm(l)]), w, np.array([s * np.cos(p), s * np.sin(p), x]))
    return _Y[l]


def planewave(q, li, lj, Ri, Rj, r, kmin):
    """(1/sqrt(4 pi)) int R_i Y_li^* (exp(iqr) - multipoles below kmin) R_j Y_lj, radial integration by the trapezoidal rule."""
    A, w, dirs = harmonics(li)
    B, _, _ = harmonics(lj)
    L = np.linalg.norm(q)
    cosg = np.array(q) / L @ dirs
    out = np.zeros((len(r), 2 * li + 1, 2 * lj + 1), dtype=complex)
    low = [np.polynomial.legendre.Legendre.basis(k)(cosg) for k in range(kmin)]
    for i, x in enumerate(r):
        f = np.exp(1j * L * x * cosg)
        for k in range(kmin):
            f = f - (2 * k + 1) * 1j**k * bessel(k, L * x)[0] * low[k]
        out[i] = (A.conj() * (w * f)) @ B.T
    g = (Ri.conj() * Rj * r**2)[:, None, None] * out
    tot = 0.5 * np.sum((g[1:] + g[:-1]) * np.diff(r)[:, None, None], axis=0)
    return tot / np.sqrt(4 * np.pi)


def check(ctx, case):
    from impurityModel.ed import spectra

    nBaths = OrderedDict(zip(case["ls"], case["nb"]))
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    r, Ri, Rj = radial(case)
    li, lj = case["li"], case["lj"]
    kmin = 1 if case["kmin"] is None else case["kmin"]
    kw = {} if case["kmin"] is None else {"kmin": kmin}
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["qtype"]]
    qs = [conv(q) for q in case["qs"]]
    keep = ([conv(q) for q in case["qs"]], r.copy(), Ri.copy(), Rj.copy())
    ops = ctx.call(spectra.getNIXSOperators, nBaths, qs, li, lj, Ri, Rj, r, **kw)
    ctx.same_args(keep, (qs, r, Ri, Rj), "getNIXSOperators")
    ctx.check(len(ops) == len(qs), "%d operators for %d scattering vectors", len(ops), len(qs))
    kmax = li + lj
    ks = [k for k in range(kmin, kmax + 1) if (k + li + lj) % 2 == 0 and k >= abs(li - lj)]
    ctx.label("li=%d lj=%d kmin=%d" % (li, lj, kmin))
    ctx.nontrivial(any(sum(abs(c) > 1e-9 for c in q) >= 2 for q in case["qs"]) and len(ks) >= 1 and max(ks) > 0)
    for q, op in zip(case["qs"], ops):
        if sum(abs(c) > 1e-9 for c in q) == 1:
            ctx.label("along an axis")
        if q[0] < -1e-9:
            ctx.label("negative qx")
        ref.check_op(ctx, op, "NIXS operator", set(range(len(lab))))
        M = planewave(q, li, lj, Ri, Rj, r, kmin)
        want = {}
        for s in range(2):
            for i, mi in enumerate(ref.lm(li)):
                for j, mj in enumerate(ref.lm(lj)):
                    want[((index[(li, s, mi)], "c"), (index[(lj, s, mj)], "a"))] = M[i, j]
        big = np.abs(M).max() + 1e-6 * np.trapezoid(np.abs(Ri * Rj) * r**2, r)
        ref.compare_ops(ctx, op, want, "NIXS operator for q=%s" % q, 1e-8, big)
        ref.compare_ops(ctx, ctx.call(spectra.getNIXSOperator, nBaths, conv(q), li, lj, Ri, Rj, r, **kw), want, "getNIXSOperator for q=%s" % q, 1e-8, big)


SUBS = [Sub("nixs", lambda t: case(), check, 240, shards=8)]
