"""P20 Dipole and photo-emission transition operators are exact."""

from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P20"
RULE = (
    "Layouts of two shells (s-p, p-d, d-f, also p-p and reversed order) with bath states and lists of real or complex polarization vectors "
    "are drawn; operators are compared in normal form with matrix elements of n.r/|r| between own spherical harmonics, obtained by "
    "quadrature; adjoints and linearity are checked. Photo-emission operators are compared one by one. Non-trivial: at least two "
    "polarization components are non-zero (dipole), a shell other than the first one or a bath is present (photo-emission)."
)
ASSUMPTIONS = ["dipole operators: exactly two shells"]

PAIRS = [[1, 2], [1, 2], [1, 2], [0, 1], [2, 3], [2, 1], [1, 0], [0, 2], [3, 2]]


@st.composite
def case(draw):
    ls = draw(st.sampled_from(PAIRS))
    comp = st.one_of(st.just(0), gens.numbers(), gens.rnumbers(), gens.scaled([1, 1e-2, 1e-4, 1e-6, 1e-8]))
    return {
        "ls": ls,
        "nb": [draw(st.sampled_from([0, 0, 1, 4, 10])) for _ in ls],
        "ns": draw(st.lists(st.lists(comp, min_size=3, max_size=3), min_size=1, max_size=4)),
        "kind": draw(st.sampled_from(["list", "tuple", "array"])),
        "x": draw(gens.cnonzero()),
        "scale": draw(st.sampled_from([1] * 9 + [1e-4, 1e-9, 1e-13, 1e6])),  # of all polarization vectors
    }


_RHAT = {}


def rhat(l2, l1):
    """3 matrices <l2 m| r_i/|r| |l1 mp> by quadrature."""
    if (l2, l1) not in _RHAT:
        x, p, w = ref._quad()
        s = np.sqrt(1 - x * x)
        dirs = (s * np.cos(p), s * np.sin(p), x)
        A = np.array([ref.ylm(l2, m, x, p) for m in ref.lm(l2)])
        B = np.array([ref.ylm(l1, m, x, p) for m in ref.lm(l1)])
        out = []
        for d in dirs:
            M = np.einsum("iq,jq,q->ij", A.conj(), B, w * d)
            M[np.abs(M) < 1e-14] = 0
            out.append(M)
        _RHAT[(l2, l1)] = out
    return _RHAT[(l2, l1)]


def dipole(nBaths, n):
    l1, l2 = nBaths
    index = {x: i for i, x in enumerate(ref.layout(nBaths))}
    M = sum(c * R for c, R in zip(n, rhat(l2, l1)))
    out = {}
    for s in range(2):
        for i, m in enumerate(ref.lm(l2)):
            for j, mp in enumerate(ref.lm(l1)):
                if M[i, j] != 0:
                    out[((index[(l2, s, m)], "c"), (index[(l1, s, mp)], "a"))] = M[i, j]
    return out


def check(ctx, case):
    from impurityModel.ed import spectra

    nBaths = OrderedDict(zip(case["ls"], case["nb"]))
    N = len(ref.layout(nBaths))
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["kind"]]
    f = case.get("scale", 1)
    ns = [[gens.tocplx(c) if f == 1 else f * gens.tocplx(c) for c in n] for n in case["ns"]]
    size = max(abs(c) for n in ns for c in n)
    ctx.nontrivial(any(sum(c != 0 for c in n) >= 2 for n in ns))
    ctx.label("%d-%d" % tuple(case["ls"]))
    if any(isinstance(c, complex) for n in ns for c in n):
        ctx.label("complex polarization")
    arg = [conv(n) for n in ns]
    keep = [conv(n) for n in ns]
    ops = ctx.call(spectra.getDipoleOperators, nBaths, arg)
    dag = ctx.call(spectra.getDaggeredDipoleOperators, nBaths, arg)
    ctx.same_args(keep, arg, "getDipoleOperators")
    ctx.check(list(nBaths.items()) == list(zip(case["ls"], case["nb"])), "nBaths modified")
    ctx.check(len(ops) == len(ns) and len(dag) == len(ns), "wrong number of operators")
    for n, op, od in zip(ns, ops, dag):
        want = dipole(nBaths, n)
        ref.compare_ops(ctx, ref.check_op(ctx, op, "dipole", set(range(N))), want, "dipole operator %s" % n, scale=size)
        ref.compare_ops(ctx, ref.check_op(ctx, od, "daggered dipole", set(range(N))), ref.dagger(want), "daggered dipole operator %s" % n, scale=size)
        ref.compare_ops(ctx, ctx.call(spectra.getDipoleOperator, nBaths, conv(n)), want, "getDipoleOperator %s" % n, scale=size)
    # linear in the polarization
    x = complex(*case["x"])
    a, b = ns[0], ns[-1]
    mix = ctx.call(spectra.getDipoleOperator, nBaths, conv([p + x * q for p, q in zip(a, b)]))
    both = ref.add(ops[0], {p: x * v for p, v in ops[-1].items()})
    ref.compare_ops(ctx, mix, both, "linearity", 1e-8, size * max(1, abs(x)))


@st.composite
def case_pes(draw):
    ls = draw(st.sampled_from([[2], [1, 2], [1, 2], [2, 1], [0, 1, 2], [3, 2], [2, 0]]))
    return {"ls": ls, "nb": [draw(st.integers(0, 11)) for _ in ls], "l": draw(st.sampled_from(ls)), "default": draw(st.booleans())}


def check_pes(ctx, case):
    from impurityModel.ed import spectra

    nBaths = OrderedDict(zip(case["ls"], case["nb"]))
    index = {x: i for i, x in enumerate(ref.layout(nBaths))}
    l = case["l"]
    kw = {"l": l}
    if l == 2 and case["default"]:
        kw = {}
    ctx.nontrivial(l != case["ls"][0] or any(case["nb"]))
    ctx.label("l=%d of %s" % (l, case["ls"]))
    for f, kind in ((spectra.getInversePhotoEmissionOperators, "c"), (spectra.getPhotoEmissionOperators, "a")):
        ops = ctx.call(f, nBaths, **kw)
        ctx.check(len(ops) == 4 * l + 2, "%d operators, expected %d", len(ops), 4 * l + 2)
        for op, lab in zip(ops, ref.shell_labels(l)):
            ref.check_op(ctx, op)
            ref.compare_ops(ctx, op, {((index[lab], kind),): 1}, "%s of %s" % (kind, lab))


SUBS = [
    Sub("dipole", lambda t: case(), check, 400, shards=4),
    Sub("photo-emission", lambda t: case_pes(), check_pes, 600, shards=2),
]
