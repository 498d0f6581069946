"""P05 Operator algebra: adjoint, sum and Hermiticity check."""

import copy

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P05"
RULE = (
    "Operators with processes of 1-7 ladder operators and int/float/complex strengths are drawn on up to 5 spin-orbitals; "
    "adjoint and sum (also of tiny and of almost opposite terms) are compared as full Fock-space matrices with the reference and term by term. Hermitian operators are "
    "made as X + X^dagger, and each is also broken in one term (value, missing partner, imaginary diagonal) and must then be "
    "rejected. Operators keyed by spin-orbital labels are included. Non-trivial: the operator has a complex strength and a "
    "process that is not its own adjoint (sum: a shared process; Hermiticity: a two-sided pair)."
)
ASSUMPTIONS = ["processes are non-empty tuples of (spin-orbital, 'c'|'a')"]


def relabel(op, how):
    if how == 0:
        return op
    lab = lambda i: (2, i % 2, i // 2 - 2) if how == 1 else (2, i)
    return {tuple((lab(i), k) for i, k in p): v for p, v in op.items()}


def unlabel(ctx, op, how):
    ctx.check(isinstance(op, dict), "operator expected, got %.200r", op)
    out = {}
    for p, v in op.items():
        try:
            q = tuple((i if how == 0 else (i[1] + 2 * (i[2] + 2) if how == 1 else i[1]), k) for i, k in p)
            ctx.check(isinstance(p, tuple) and all(isinstance(x, tuple) and x[1] in "ca" for x in p), "malformed process %r", p)
        except (TypeError, IndexError, ValueError):
            ctx.fail("malformed process %r" % (p,))
        out[q] = complex(ctx.array(v, (), "strength"))
    return out


def fock(op, n):
    return ref.matrix(op, list(range(1 << n)))


@st.composite
def dagger_case(draw):
    n = draw(st.integers(1, 5))
    num = draw(st.sampled_from([None, gens.scaled()]))
    return {"n": n, "op": draw(gens.operators(n, 0, 8, maxlen=draw(st.sampled_from([4, 7])), value=num)), "how": draw(st.integers(0, 2))}


def check_dagger(ctx, case):
    from impurityModel.ed import finite

    n, how, op = case["n"], case["how"], gens.toop(case["op"])
    arg = relabel(op, how)
    keep = copy.deepcopy(arg)
    out = ctx.call(finite.daggerOp, arg)
    ctx.same_args(keep, arg, "daggerOp")
    ctx.check(out is not arg, "daggerOp returned its argument")
    d = unlabel(ctx, out, how)
    want = ref.dagger(op)
    ctx.nontrivial(any(complex(v).imag for v in op.values()) and any(p not in want for p in op))
    ctx.check(set(d) == set(want), "daggerOp: processes %s, expected %s", sorted(d), sorted(want))
    for p in want:
        ctx.check(abs(d[p] - want[p]) <= 1e-12 * abs(want[p]), "daggerOp: strength of %s is %r, expected %r", p, d[p], want[p])
    ctx.close(fock(d, n), fock(op, n).conj().T, "matrix of the adjoint")
    back = ctx.call(finite.daggerOp, out)
    ctx.check(back == keep, "(op^dagger)^dagger = %.300r differs from op = %.300r", back, keep)


@st.composite
def sum_case(draw):
    n = draw(st.integers(1, 5))
    pool = draw(gens.operators(n, 1, 8))
    k = draw(st.integers(0, 5))
    ops = []
    for _ in range(k):
        ks = draw(st.lists(st.integers(0, len(pool) - 1), max_size=5))
        vals = draw(st.lists(st.one_of(gens.numbers(), gens.scaled(), st.sampled_from([0, 0.0])), min_size=len(ks), max_size=len(ks)))
        ops.append([[pool[i][0], v] for i, v in zip(dict.fromkeys(ks), vals)])
    size = draw(st.sampled_from([1, 1, 1, 1e-6, 1e-9, 1e-13]))
    if size != 1:
        if ops and draw(st.booleans()):
            # almost the opposite of the first operator: what remains is small
            x = draw(gens.numbers())
            f = lambda v: -complex(gens.tocplx(v)) + size * complex(gens.tocplx(x))
            ops.append([[p, [f(v).real, f(v).imag]] for p, v in ops[0]])
        else:
            ops = [[[p, [size * y for y in v] if isinstance(v, list) else size * v] for p, v in o] for o in ops]
    return {"n": n, "ops": ops, "how": draw(st.integers(0, 2)), "same": draw(st.booleans())}


def check_sum(ctx, case):
    from impurityModel.ed import finite

    n, how = case["n"], case["how"]
    ops = [gens.toop(o) for o in case["ops"]]
    args = [relabel(o, how) for o in ops]
    if case["same"] and args:
        # the same object twice
        args.append(args[0])
        ops.append(ops[0])
    keep = copy.deepcopy(args)
    out = ctx.call(finite.addOps, args)
    ctx.same_args(keep, args, "addOps")
    for a in args:
        ctx.check(out is not a, "addOps returned one of its arguments")
    s = unlabel(ctx, out, how)
    want = {}
    for o in ops:
        for p, v in o.items():
            want[p] = want.get(p, 0) + v
    count = {}
    for o in ops:
        for p in o:
            count[p] = count.get(p, 0) + 1
    ctx.nontrivial(any(c > 1 for c in count.values()))
    size = {}
    for o in ops:
        for p, v in o.items():
            size[p] = size.get(p, 0) + abs(v)
    for p in set(s) | set(want):
        ctx.check(abs(s.get(p, 0) - want.get(p, 0)) <= 1e-14 * size.get(p, 0), "addOps: strength of %s is %r, expected %r", p, s.get(p), want.get(p))
    W = np.zeros((1 << n, 1 << n), dtype=complex)
    for o in ops:
        W += fock(o, n)
    ctx.close(fock(s, n), W, "matrix of the sum", 1e-9, 1e-13 * max(size.values(), default=0))
    for p in list(out):
        out[p] = 1234
    ctx.same_args(keep, args, "addOps (after changing its result)")


@st.composite
def herm_case(draw):
    n = draw(st.integers(1, 6))
    return {
        "n": n,
        "op": draw(gens.operators(n, 0, 6, maxlen=draw(st.sampled_from([4, 6])), value=draw(st.sampled_from([None, gens.scaled()])))),
        "how": draw(st.integers(0, 2)),
        "break": draw(st.integers(0, 5)),
        "at": draw(st.integers(0, 50)),
        "z": draw(gens.numbers()),
        "tiny": draw(st.sampled_from([1, 1, 1e-6, 1e-9, 1e-12, 1e-15])),
    }


def check_herm(ctx, case):
    from impurityModel.ed import finite

    n, how = case["n"], case["how"]
    op = gens.hermitian_part(gens.toop(case["op"]))
    arg = relabel(op, how)
    keep = copy.deepcopy(arg)
    ctx.call(finite.assert_hermitian, arg)
    ctx.same_args(keep, arg, "assert_hermitian")
    pairs = [p for p in op if tuple((i, "c" if k == "a" else "a") for i, k in reversed(p)) != p]
    ctx.nontrivial(bool(pairs))
    bad = dict(op)
    z = complex(gens.tocplx(case["z"])) * case["tiny"]
    if case["break"] == 0 and pairs:
        p = pairs[case["at"] % len(pairs)]
        bad[p] = bad[p] + z
    elif case["break"] == 1 and pairs:
        del bad[pairs[case["at"] % len(pairs)]]
    elif case["break"] == 2:
        i = case["at"] % n
        bad[((i, "c"), (i, "a"))] = bad.get(((i, "c"), (i, "a")), 0) + 1j * (abs(z))
    elif case["break"] == 3:
        i = case["at"] % n
        p = ((i, "c"), ((i + 1) % n, "c"))
        bad[p] = bad.get(p, 0) + z
    elif case["break"] == 4 and pairs:
        # conjugate one side only
        p = pairs[case["at"] % len(pairs)]
        bad[p] = bad[p].conjugate()
    elif case["break"] == 5 and pairs:
        p = pairs[case["at"] % len(pairs)]
        bad[p] = -bad[p]
    d = ref.dagger(bad)
    if set(d) == set(bad) and all(abs(d[p] - bad[p]) == 0 for p in bad):
        ctx.label("still Hermitian")
        ctx.call(finite.assert_hermitian, relabel(bad, how))
    else:
        ctx.label("broken %d" % case["break"])
        ctx.raises(finite.assert_hermitian, relabel(bad, how))


SUBS = [
    Sub("dagger", lambda t: dagger_case(), check_dagger, 4000, shards=2),
    Sub("sum", lambda t: sum_case(), check_sum, 4000, shards=3),
    Sub("hermitian", lambda t: herm_case(), check_herm, 6000, shards=2),
]
