"""P15 The total Hamiltonian is the sum of its physical terms."""

import json
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from checks import p14
from lib import gens, ref
from lib.harness import Sub

PROP = "P15"
RULE = (
    "All parameters of a simulation (Slater-Condon, spin-orbit, field, nominal occupations, charge-transfer correction) and the "
    "non-interacting part (a pickled random Hermitian one-particle operator over generated bath layouts, or a crystal-field file) are "
    "drawn; the returned operator is brought to normal form and compared with the sum of independently built terms; exact Hermiticity and "
    "particle conservation are required term by term. Double-counting input is drawn including inconsistent combinations. Non-trivial: all "
    "kinds of terms are non-zero."
)
ASSUMPTIONS = ["the system has one p and one d shell", "values in pickled files are Hermitian unless the case is about rejection"]


def num():
    return st.one_of(gens.rnumbers(), gens.rnumbers(), gens.reals(9.0), st.just(0), small())


def small():
    """Weak fields and couplings, down to 0.01 meV."""
    return st.integers(-999, 999).map(lambda k: k * 1e-5 if k % 2 else k * 1e-7)


def axis():
    """A field along one axis, weak or strong."""
    return st.tuples(st.integers(0, 2), st.one_of(gens.reals(20.0), num())).map(lambda t: [t[1] * (i == t[0]) for i in range(3)])


@st.composite
def common(draw):
    return {
        "Fdd": draw(st.lists(num(), min_size=5, max_size=5)),
        "Fpp": draw(st.lists(num(), min_size=3, max_size=3)),
        "Fpd": draw(st.lists(num(), min_size=3, max_size=3)),
        "Gpd": draw(st.lists(num(), min_size=4, max_size=4)),
        "xi": draw(st.lists(num(), min_size=2, max_size=2)),
        "h": draw(st.one_of(st.lists(num(), min_size=3, max_size=3), axis())),
        "n3d": draw(st.integers(0, 10)),
        "c": draw(num()),
        # dictionaries that do not follow the order of the shells, or know more shells
        "occ": draw(st.sampled_from([[1, 2], [1, 2], [2, 1], [0, 2, 1], [2, 0, 1, 3]])),
        "val": draw(st.integers(0, 3)),
    }


def expected_dc(case):
    F, G = case["Fpd"], case["Gpd"]
    Udd = ref.average_repulsion(2, 2, case["Fdd"])
    Upd = ref.average_repulsion(2, 1, F, G)
    return [Udd * case["n3d"] + 6 * Upd - case["c"], Upd * (case["n3d"] + 1) - case["c"]]


def expected(case, h0):
    dc = expected_dc(case)
    e = {}
    for l, v in zip((2, 1), dc):
        e.update(ref.one_body(-v * np.eye(4 * l + 2), ref.shell_labels(l)))
    return ref.add(
        ref.coulomb_2p3d(case["Fdd"], case["Fpp"], case["Fpd"], case["Gpd"]),
        ref.soc_op(case["xi"][0], 1),
        ref.soc_op(case["xi"][1], 2),
        ref.field_op(case["h"], 2),
        e,
        h0,
    )


def verify(ctx, op, want, nBaths, what):
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    ref.check_op(ctx, op, what, set(range(len(lab))))
    ref.compare_ops(ctx, op, ref.reindex(want, index), what)
    for p, v in op.items():
        q = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        ctx.check(q in op and op[q] == np.conj(v), "%s: not exactly Hermitian: %s: %r, %r", what, p, v, op.get(q))
        ctx.check(2 * sum(k == "c" for _, k in p) == len(p), "%s: %s does not conserve the number of electrons", what, p)


def rich(case):
    return all(any(case[k]) for k in ("Fdd", "Fpp", "Fpd", "Gpd")) and all(case["xi"]) and sum(x != 0 for x in case["h"]) >= 2


def args_of(case):
    return (
        [case["Fdd"], case["Fpp"], case["Fpd"], case["Gpd"]],
        list(case["xi"]),
        [{l: {1: 6, 2: case["n3d"]}.get(l, 2) for l in case.get("occ", (1, 2))}, case["c"]],
        tuple(case["h"]),
    )


@st.composite
def case_pickle(draw):
    c = draw(common())
    c["order"] = draw(st.sampled_from([[1, 2], [1, 2], [2, 1], [0, 1, 2], [[1, 2]], [[2, 1]], [0, [1, 2]]]))
    c["nb"] = [draw(st.integers(0, 6)) for _ in c["order"]]
    n = sum(sum(4 * k + 2 for k in (l if isinstance(l, list) else [l])) + b for l, b in zip(c["order"], c["nb"]))
    term = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), gens.numbers())
    c["h0"] = draw(st.lists(term, max_size=12))
    c["diag"] = draw(st.lists(st.tuples(st.integers(0, n - 1), num()), max_size=6))
    c["break"] = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1]))
    return c


def check_pickle(ctx, case):
    from impurityModel.ed import get_spectra as gs

    # shells of their own, or shells that share their bath states
    nBaths = dict(zip([tuple(l) if isinstance(l, list) else l for l in case["order"]], case["nb"]))
    lab = ref.layout(nBaths)
    h0 = {}
    for i, j, v in case["h0"]:
        v = gens.tocplx(v)
        if i == j:
            v = v.real if isinstance(v, complex) else v
        h0[((lab[i], "c"), (lab[j], "a"))] = v
        h0[((lab[j], "c"), (lab[i], "a"))] = np.conj(v) if isinstance(v, complex) else v
    for i, v in case["diag"]:
        h0[((lab[i], "c"), (lab[i], "a"))] = v
    broken = False
    if case["break"]:
        for i, j, v in case["h0"]:
            if i != j:
                h0[((lab[i], "c"), (lab[j], "a"))] += 0.5
                broken = True
                break
    path = os.path.join(os.environ["VERIF_SCRATCH"], "h0.pickle")
    with open(path, "wb") as f:
        pickle.dump(h0, f)
    nVal = {l: min(b, case.get("val", 3)) for l, b in nBaths.items()}
    if case.get("val") == 2:
        nVal = dict(reversed(nVal.items()))
    sc, so, dci, h = args_of(case)
    if broken:
        ctx.label("non-Hermitian file")
        ctx.raises(gs.get_hamiltonian_operator, nBaths, nVal, sc, so, dci, h, path)
        return
    ctx.nontrivial(rich(case) and len(h0) > 2)
    ctx.label("shell order %s" % case["order"])
    if any(case["nb"]):
        ctx.label("bath")
    op = ctx.call(gs.get_hamiltonian_operator, nBaths, nVal, sc, so, dci, h, path)
    sc2, so2, dci2, h2 = args_of(case)
    ctx.same_args((sc2, so2, dci2, h2), (sc, so, dci, h), "get_hamiltonian_operator")
    verify(ctx, op, expected(case, h0), nBaths, "get_hamiltonian_operator")
    back = ctx.call(gs.read_pickled_file, path)
    ctx.check(back == h0, "read_pickled_file returns something else")


@st.composite
def case_cf(draw):
    c = draw(common())
    c["cf"] = draw(p14.case())
    return c


def check_cf(ctx, case):
    from impurityModel.ed import get_spectra_using_CF as cf

    q = dict(p14.DEFAULT)
    q.update({k: v for k, v in case["cf"]["p"].items() if k in p14.DEFAULT})
    con = case["cf"]["con"]
    nBaths = {1: 0, 2: 20 if con else 10}
    nVal = {1: 0, 2: 10}
    path = p14.write("cf15.json", case["cf"]["p"])
    sc, so, dci, h = args_of(case)
    basis = case["cf"]["basis"]
    ctx.nontrivial(rich(case))
    ctx.label("%s %s bath" % (basis, 20 if con else 10))
    op = ctx.call(cf.get_hamiltonian_operator_using_CF, nBaths, nVal, sc, so, dci, h, path, *([] if basis is None else [basis]))
    if basis == "cubic":
        # up to the choice of the bath functions (P14): take the one-particle part from the code under test
        h0 = ctx.call(cf.get_CF_hamiltonian, nBaths, nVal, path, basis)
    else:
        imp, baths = p14.reference(q, con)
        h0 = {}
        for s in range(2):
            I = [(2, s, m) for m in ref.lm(2)]
            h0 = ref.add(h0, ref.one_body(imp, I))
            for k, (e, v) in enumerate(baths):
                B = [(2, 10 * k + 5 * s + i) for i in range(5)]
                h0 = ref.add(h0, ref.one_body(e, B))
                for i in range(5):
                    for j in range(5):
                        if v[i, j] != 0:
                            h0 = ref.add(h0, {((B[i], "c"), (I[j], "a")): v[i, j], ((I[j], "c"), (B[i], "a")): np.conj(v[i, j])})
    verify(ctx, op, expected(case, h0), nBaths, "get_hamiltonian_operator_using_CF")


@st.composite
def case_dc(draw):
    c = draw(common())
    c["n3d"] = draw(st.sampled_from(list(range(11)) + [float(x) for x in range(11)] + [0.5, 7.25, 8.999]))
    c["n2p"] = draw(st.sampled_from([6, 6, 6, 6.0, None, None, 5, 0, 5.5, 6.25]))
    c["with"] = draw(st.sampled_from(["both", "both", "both", "none", "none", "F", "G"]))
    c["kw"] = draw(st.booleans())
    return c


def check_dc(ctx, case):
    from impurityModel.ed import finite

    F = case["Fpd"] if case["with"] in ("both", "F") else None
    G = case["Gpd"] if case["with"] in ("both", "G") else None
    n3d, n2p = case["n3d"], case["n2p"]
    Udd = ref.average_repulsion(2, 2, case["Fdd"])
    if case["kw"]:
        call = lambda f: f(finite.dc_MLFT, n3d_i=n3d, c=case["c"], Fdd=case["Fdd"], n2p_i=n2p, Fpd=F, Gpd=G)
    else:
        call = lambda f: f(finite.dc_MLFT, n3d, case["c"], case["Fdd"], n2p, F, G)
    bad = int(n3d) != n3d or (n2p is not None and int(n2p) != n2p)
    if not bad and n2p is None and F is None and G is None:
        ctx.label("d only")
        ctx.nontrivial(n3d > 0)
        ctx.close(call(ctx.call), Udd * n3d - case["c"], "dc_MLFT")
    elif not bad and n2p == 6 and F is not None and G is not None:
        ctx.label("p and d")
        ctx.nontrivial(n3d > 0)
        ctx.close(call(ctx.call), expected_dc(case), "dc_MLFT")
    else:
        ctx.label("inconsistent")
        e = call(ctx.raises)
        ctx.check(isinstance(e, Exception), "inconsistent double counting input ended the program")


SUBS = [
    Sub("pickle", lambda t: case_pickle(), check_pickle, 100, shards=4),
    Sub("cf", lambda t: case_cf(), check_cf, 100, shards=4),
    Sub("dc", lambda t: case_dc(), check_dc, 800),
]
