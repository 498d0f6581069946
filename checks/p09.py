"""P09 The Hamiltonian matrix is the operator in the given basis."""

import copy

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P09"
RULE = (
    "Operators (Hermitian and not, real or complex, conserving or not) and ordered lists of 1-40 (in a part of the cases up to 300) distinct product states (random "
    "order, closed under the operator or not) on 1-33 spin-orbitals are drawn; all four construction modes are compared element "
    "by element with the reference matrix, and with each other. Non-trivial: the matrix has a non-zero off-diagonal element."
)
ASSUMPTIONS = ["one MPI rank; several ranks are covered by P23 and P24"]
MODES = ["dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"]


@st.composite
def case(draw):
    n = draw(gens.n_orbitals(33))
    start = draw(gens.masks(n, 1, 6))
    herm = draw(st.booleans())
    op = draw(gens.aimed_operators(n, start, 0, 7, value=draw(st.sampled_from([None, gens.rnumbers(), gens.scaled()]))))
    o = gens.toop(op)
    if herm:
        o = gens.hermitian_part(o)
    # extend the basis by product states reached by the operator
    basis = list(start)
    for m in list(basis):
        for k in sorted(ref.apply(o, {m: 1})):
            if k not in basis and len(basis) < 40 and draw(st.integers(0, 3)):
                basis.append(k)
    basis = draw(st.permutations(basis)) if len(basis) <= 12 else basis
    return {"n": n, "op": op, "herm": herm, "basis": list(basis)}


def check(ctx, case):
    from impurityModel.ed import finite

    n, basis = case["n"], case["basis"]
    op = gens.toop(case["op"])
    if case["herm"]:
        op = gens.hermitian_part(op)
    want = ref.matrix(op, basis)
    off = np.count_nonzero(np.abs(want - np.diag(np.diag(want))) > 1e-9)
    ctx.nontrivial(off > 0)
    ctx.label("Hermitian" if case["herm"] else "general")
    b = tuple(ref.enc(m, n) for m in basis)
    closed = all(k in set(basis) for m in basis for k in ref.apply(op, {m: 1}))
    ctx.label("closed" if closed else "not closed")
    keep = copy.deepcopy(op)
    hs = {}
    for mode in MODES + [None]:
        h = ctx.call(finite.get_hamiltonian_matrix, n, op, b, mode) if mode else ctx.call(finite.get_hamiltonian_matrix, n, op, b)
        if hasattr(h, "toarray"):
            h = h.toarray()
        hs[mode] = ctx.array(h, want.shape, "matrix (%s)" % mode)
        # applyOp drops amplitudes with a square below 1e-12
        seen = np.where((hs[mode] == 0) & (np.abs(want) < 1.001e-6), 0, want)
        ctx.close(hs[mode], seen, "matrix (%s)" % mode, 1e-9, 1e-11)
        if case["herm"]:
            ctx.close(hs[mode], hs[mode].conj().T, "Hermiticity (%s)" % mode)
    ctx.same_args(keep, op, "get_hamiltonian_matrix")


def bigcase(lo=30, hi=300, procs=60, orbitals=6):
    return st.fixed_dictionaries({"n": gens.n_orbitals(40, lo=orbitals), "k": st.integers(lo, hi), "procs": st.integers(1, procs),
                                  "vals": st.integers(1, 40), "seed": st.integers(0, 2**40), "r": st.just(False), "herm": st.booleans(), "weak": st.integers(0, 2)})


def check_big(ctx, case):
    """Larger bases."""
    import random

    from checks.p01 import decode_big
    from impurityModel.ed import finite

    n, op, psi, _ = decode_big(case)
    if case["weak"] == 0:
        # a part of the processes is weak (but not below what applyOp keeps)
        rng = random.Random(case["seed"] + 2)
        op = {p: v * rng.choice([1, 1e-2, 1e-3, 1e-4, 2e-5]) for p, v in op.items()}
    if case["herm"]:
        op = gens.hermitian_part(op)
    basis = list(psi)
    random.Random(case["seed"] + 1).shuffle(basis)
    want = ref.matrix(op, basis)
    ctx.nontrivial(np.count_nonzero(np.abs(want - np.diag(np.diag(want))) > 1e-9) > 10)
    b = tuple(ref.enc(m, n) for m in basis)
    for mode in MODES:
        h = ctx.call(finite.get_hamiltonian_matrix, n, op, b, mode)
        h = ctx.array(h.toarray() if hasattr(h, "toarray") else h, want.shape, "matrix (%s)" % mode)
        want_h = np.where((h == 0) & (np.abs(want) < 1.001e-6), 0, want)
        ctx.close(h, want_h, "matrix (%s)" % mode, 1e-9, 1e-11)


SUBS = [Sub("matrix", lambda t: case(), check, 4000, shards=7), Sub("big", lambda t: bigcase(), check_big, 60), Sub("huge", lambda t: bigcase(600, 1800, 8, 14), check_big, 3)]
