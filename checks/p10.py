"""P10 Basis expansion reaches exactly the connected product states."""

import copy

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P10"
RULE = (
    "A Hermitian operator, occupation restrictions (or none) and a history of 1-5 expansions from random sets of allowed product "
    "states are drawn; all expansions of a history share one store of the Hamiltonian and use serial and distributed mode in "
    "random order, some also build the matrix; applyOp stores part of a connected set now and then. Bases are compared with the reference closure, matrices and stored entries with "
    "the reference operator, and earlier outcomes with a fresh store. Non-trivial: an expansion adds product states and finds "
    "some, but not all, of them in the store, or it needs two or more rounds. Some cases connect thousands of product states (a few electrons on chains with further links)."
)
ASSUMPTIONS = ["the starting product states satisfy the restrictions", "one MPI rank; several ranks are covered by P23 and P24"]


@st.composite
def case(draw, hi):
    n = draw(gens.n_orbitals(hi, lo=2))
    big = n > 8
    if big:
        # few electrons, so the connected set stays small
        pool = [ref.mask_of([x % n for x in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2))]) for _ in range(4)]
        pool = list(dict.fromkeys(pool))
    else:
        pool = draw(gens.masks(n, 2, 6))
    op = draw(gens.aimed_operators(n, pool, 1, 6, conserving=big or draw(st.booleans()), value=draw(st.sampled_from([None, None, gens.scaled([1, 1, 0.1, 1e-2, 1e-3, 1e-4])]))))
    r = None
    if draw(st.integers(0, 2)):
        around = pool[0]
        r = draw(gens.restriction_sets(n, around=around))
    step = st.tuples(
        st.sampled_from(["serial", "H_build"]),
        st.sampled_from(["expand", "expand", "matrix", "matrix", "local", "act"]),
        st.lists(st.integers(0, 9), min_size=1, max_size=3),
        st.booleans(),
    )
    return {"n": n, "pool": pool, "op": op, "r": r, "steps": draw(st.lists(step, min_size=1, max_size=5))}


def check(ctx, case):
    from impurityModel.ed import finite

    n, r = case["n"], gens.torestr(case["r"])
    op = gens.hermitian_part(gens.toop(case["op"]))
    pool = [m for m in case["pool"] if ref.allowed(m, r)]
    if not pool or not op:
        ctx.label("nothing to expand")
        return
    op0, r0 = copy.deepcopy(op), copy.deepcopy(r)
    store, snapshot = {}, {}
    for mode, what, picks, grow in case["steps"]:
        basis0 = list(dict.fromkeys(pool[k % len(pool)] for k in picks))
        if what == "act":
            # only part of a connected set gets known
            ctx.label("store filled by applyOp")
            kw = {} if r is None else {"restrictions": r}
            some = sorted(ref.closure(op, basis0, r, tol=1e-8))[:: 2 + len(picks)]
            ctx.call(finite.applyOp, n, op, {ref.enc(m, n): 1.0 for m in some}, opResult=store, **kw)
            snapshot = copy.deepcopy(store)
            continue
        if len(basis0) > 1 and grow:
            ctx.label("several start states")
        want = ref.closure(op, basis0, r, tol=1e-8)
        if len(want) > 700:
            ctx.exclude("connected set larger than 700")
            return
        known = [m for m in want if ref.enc(m, n) in store]
        one = set(basis0) | {k for m in basis0 for k, a in ref.apply(op, {m: 1}, r).items() if abs(a) > 1e-8}
        ctx.nontrivial(len(want) > len(basis0) and (0 < len(known) < len(want) or len(one) < len(want)))
        if 0 < len(known):
            ctx.label("store re-used")
        if len(one) < len(want):
            ctx.label("several rounds")
        if r is not None and len(ref.closure(op, basis0, None, 1e-8)) > len(want):
            ctx.label("restrictions matter")
        b0 = tuple(ref.enc(m, n) for m in basis0)
        if what == "expand":
            basis = ctx.call(finite.expand_basis, n, store, op, b0, r, mode)
        else:
            start = dict.fromkeys(b0, 0.5).keys() if grow else b0
            local = what == "local" and mode == "H_build"
            res = ctx.call(finite.expand_basis_and_hamiltonian, n, store, op, start, r, mode, local)
            ctx.check(isinstance(res, tuple) and len(res) == 2, "expand_basis_and_hamiltonian returned %.200r", res)
            h, index = res
            ctx.check(isinstance(index, dict) and sorted(index.values()) == list(range(len(index))), "basis indices are not 0..N-1: %.200r", index)
            basis = tuple(sorted(index, key=index.get))
        ctx.check(isinstance(basis, (tuple, list)), "basis is a %s", type(basis))
        got = []
        for b in basis:
            m = ref.dec(b, n)
            ctx.check(m is not None, "invalid product state %r", b)
            got.append(m)
        ctx.check(got[: len(basis0)] == basis0, "the basis does not start with the given product states")
        ctx.check(len(set(got)) == len(got), "duplicates in the expanded basis")
        ctx.check(not set(got) - want, "unreachable or forbidden product state %s in the basis", set(got) - want and list(ref.bits(min(set(got) - want))))
        ctx.check(not want - set(got), "%d connected product states missing", len(want - set(got)))
        if what != "expand":
            hh = h.toarray() if hasattr(h, "toarray") else h
            ctx.close(hh, ref.matrix(op, got), "Hamiltonian matrix")
            for fmt in ("dense", "sparse"):
                h2, index2 = ctx.call(finite.get_hamiltonian_matrix_from_h_dict, store, basis, "serial", False, fmt)
                hh = h2.toarray() if hasattr(h2, "toarray") else h2
                ctx.close(hh, ref.matrix(op, got), "Hamiltonian matrix from the store (%s)" % fmt)
                ctx.check(index2 == {b: i for i, b in enumerate(basis)}, "inconsistent basis indices")
        # the store
        for k, v in store.items():
            m = ref.dec(k, n)
            ctx.check(m is not None, "invalid product state %r in the store", k)
            ref.compare_states(ctx, ref.psi_in(ctx, v, n, "store entry"), ref.apply(op, {m: 1}, r), "stored H|%s>" % list(ref.bits(m)))
        for b in basis:
            ctx.check(b in store, "H acting on a basis state is not stored")
        for k, v in snapshot.items():
            ctx.check(store.get(k) == v, "existing entry of the store altered")
        snapshot = copy.deepcopy(store)
    ctx.same_args((op0, r0), (op, r), "expand_basis")


@st.composite
def hugecase(draw):
    """Two or three electrons hopping on chains or rings: thousands of connected product states."""
    n, electrons = draw(st.sampled_from([(26, 2), (40, 2), (60, 2), (16, 3), (20, 3), (13, 5)]))
    kind = draw(st.sampled_from(["chain", "all", "hub"]))
    if kind == "all":
        # many product states are found in one round
        n, electrons = draw(st.sampled_from([(36, 2), (18, 3), (14, 6), (14, 5)]))
    links = {"chain": [[i, i + 1] for i in range(n - 1)], "all": [[i, j] for i in range(n) for j in range(i)], "hub": [[0, i] for i in range(1, n)]}[kind]
    links = links + draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list), max_size=4))
    r = draw(st.sampled_from([None, None, {"lo": 0, "hi": electrons - 1}, {"lo": 1, "hi": electrons}]))
    start = [sorted(draw(st.lists(st.integers(0, n - 1), min_size=electrons, max_size=electrons, unique=True))) for _ in range(draw(st.integers(1, 40)))]
    return {"n": n, "links": links, "half": r, "start": start, "modes": draw(st.lists(st.sampled_from(["serial", "H_build"]), min_size=2, max_size=2)),
            "cut": draw(st.integers(1, n - 1)), "u": draw(st.booleans())}


def check_huge(ctx, case):
    from impurityModel.ed import finite

    n = case["n"]
    op = {}
    for k, (i, j) in enumerate(case["links"]):
        if i != j:
            v = complex(0.5 + k / 8, (k % 3) / 4)
            for p, a in ((((i, "c"), (j, "a")), v), (((j, "c"), (i, "a")), v.conjugate())):
                op[p] = op.get(p, 0) + a
    if case["u"]:
        op[((0, "c"), (1, "c"), (1, "a"), (0, "a"))] = 2.0
    r = None if case["half"] is None else {frozenset(range(case["cut"])): (case["half"]["lo"], case["half"]["hi"])}
    starts = [m for m in dict.fromkeys(ref.mask_of(x) for x in case["start"]) if ref.allowed(m, r)]
    if not starts:
        ctx.label("no allowed start")
        return
    store = {}
    for k, mode in enumerate(case["modes"]):
        basis0 = starts if k else starts[:1]
        want = ref.closure(op, basis0, r, tol=1e-8)
        ctx.nontrivial(len(want) > 500)
        basis = ctx.call(finite.expand_basis, n, store, op, tuple(ref.enc(m, n) for m in basis0), r, mode)
        got = [ref.dec(b, n) for b in basis]
        ctx.check(got[: len(basis0)] == basis0, "the basis does not start with the given product states")
        ctx.check(len(set(got)) == len(got), "duplicates in the expanded basis")
        ctx.check(set(got) == want, "%d product states missing, %d too many", len(want - set(got)), len(set(got) - want))
        ctx.check(set(store) >= set(basis), "H acting on a basis state is not stored")
    h, index = ctx.call(finite.expand_basis_and_hamiltonian, n, store, op, tuple(ref.enc(m, n) for m in basis0), r, case["modes"][0])
    order = [ref.dec(b, n) for b in sorted(index, key=index.get)]
    ctx.check(sorted(index.values()) == list(range(len(index))) and set(order) == want, "wrong basis indices")
    pos = {m: i for i, m in enumerate(order)}
    h = h.toarray() if hasattr(h, "toarray") else h
    for m in order:
        col = ref.apply(op, {m: 1}, r)
        x = np.zeros(len(order), dtype=complex)
        for k, a in col.items():
            x[pos[k]] = a
        ctx.check(np.allclose(h[:, pos[m]], x, atol=1e-9), "wrong column %d of the Hamiltonian matrix", pos[m])


SUBS = [
    Sub("small", lambda t: case(8), check, 1600, shards=6),
    Sub("wide", lambda t: case(40), check, 400, shards=2),
    Sub("huge", lambda t: hugecase(), check_huge, 6),
]
