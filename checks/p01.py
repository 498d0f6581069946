"""P01 Applying an operator to a many-body state is exact."""

import copy

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub, deep_equal

PROP = "P01"
RULE = (
    "Operators (0-8 processes of 1-7 ladder operators, now and then a multiple of the identity, indices repeated or not, int/float/complex strengths of very different size, most of them "
    "built so that they do not annihilate a chosen product state), states (0-8 product states, 1-65 spin-orbitals), "
    "occupation restrictions (absent, empty, or up to 3 possibly overlapping or empty orbital sets with random bounds, also beyond the possible occupations), cutoffs and "
    "absent/empty result caches are drawn at random; the result is compared amplitude by amplitude with an independent "
    "integer-mask implementation of the fermionic algebra. With exactly representable amplitudes the cutoff is also put on and "
    "next to a squared amplitude of the result; a part of the cases has hundreds of product states and processes, some have thousands. Non-trivial: at least one amplitude survives and at least one "
    "process with two or more ladder operators acts."
)
ASSUMPTIONS = ["restrictions concern the final product states of the operator, not intermediate ones"]


@st.composite
def case(draw, hi, restricted):
    n = draw(gens.n_orbitals(hi))
    num = draw(st.sampled_from([None, None, None, gens.scaled()]))
    psi = draw(gens.states(n, 0, 8, num))
    op = draw(gens.aimed_operators(n, [m for m, _ in psi], 0, 8, maxlen=draw(st.sampled_from([4, 4, 4, 7])), value=num))
    if draw(st.integers(0, 15)) == 0:
        op = op + [[[], draw(gens.numbers())]]  # a multiple of the identity
    if restricted:
        r = draw(gens.restriction_sets(n))
        # aim the bounds at a state that is actually reached
        if psi and op and draw(st.booleans()):
            out = sorted(ref.apply(gens.toop(op), gens.topsi(psi)))
            if out:
                r = draw(gens.restriction_sets(n, around=out[0]))
    else:
        r = None
    return {
        "n": n,
        "op": op,
        "psi": psi,
        "r": r,
        "cache": draw(st.booleans()),
        "cut": draw(st.sampled_from([None, None, 1e-12, 1e-20])),
    }


def check(ctx, case):
    from impurityModel.ed import finite

    n, op, psi, r = case["n"], gens.toop(case["op"]), gens.topsi(case["psi"]), gens.torestr(case["r"])
    want = ref.apply(op, psi, r)
    scale = ref.touched(op, psi, r)
    ctx.nontrivial(any(abs(a) > 1e-3 for a in want.values()) and any(len(p) > 1 for p in op))
    ctx.label("restricted" if r is not None else "unrestricted")
    if r is not None and len(ref.touched(op, psi)) > len(scale):
        ctx.label("restriction removes states")
    if case["cache"]:
        ctx.label("with empty cache")
    if len(op) and len(scale) < sum(1 for m in psi for p in op if ref.act(m, p)):
        ctx.label("several contributions to one product state")
    args = [op, ref.psi_out(psi, n), r]
    before = copy.deepcopy(args)
    kw = {}
    if case["cut"] is not None:
        kw["slaterWeightMin"] = case["cut"]
    if r is not None:
        kw["restrictions"] = args[2]
    if case["cache"]:
        kw["opResult"] = {}
    got = ctx.call(finite.applyOp, n, args[0], args[1], **kw)
    ctx.same_args(before, args, "applyOp")
    ref.compare_states(ctx, ref.psi_in(ctx, got, n), want, "op|psi>", cut=case["cut"] or 1e-12, scale=scale)
    for m in ref.psi_in(ctx, got, n):
        ctx.check(ref.allowed(m, r), "product state %s violates the restrictions", list(ref.bits(m)))
    # The returned state is the caller's: changing it must not reach the arguments
    for k in list(got):
        got[k] = 17
    got[b"x"] = 1
    ctx.same_args(before, args, "applyOp (after changing the returned state)")


@st.composite
def cutcase(draw):
    n = draw(gens.n_orbitals(12))
    amp = st.integers(-7, 1).flatmap(lambda e: st.integers(1, 99).map(lambda k: k / 10 * 10.0**e))
    psi = draw(gens.states(n, 1, 8, amp))
    op = draw(gens.aimed_operators(n, [m for m, _ in psi], 1, 6, maxlen=draw(st.sampled_from([3, 6]))))
    r = draw(st.one_of(st.none(), gens.restriction_sets(n)))
    return {"n": n, "op": op, "psi": psi, "r": r, "cutexp": draw(st.integers(-14, 1)), "cutm": draw(st.integers(1, 9))}


def check_cut(ctx, case):
    from impurityModel.ed import finite

    n, op, psi, r = case["n"], gens.toop(case["op"]), gens.topsi(case["psi"]), gens.torestr(case["r"])
    cut = case["cutm"] * 10.0 ** case["cutexp"]
    want = ref.apply(op, psi, r)
    w2 = [abs(a) ** 2 for a in want.values()]
    if any(x < cut for x in w2):
        ctx.label("something below cutoff")
    ctx.nontrivial(any(x < cut for x in w2) and any(x >= cut for x in w2))
    got = ref.psi_in(ctx, ctx.call(finite.applyOp, n, op, ref.psi_out(psi, n), cut, r), n)
    ref.compare_states(ctx, got, want, "op|psi>", tol=1e-13, cut=cut, scale=ref.touched(op, psi, r))


EIGHTHS = [x for x in range(-24, 25) if x]


@st.composite
def edgecase(draw):
    """Amplitudes and strengths are real or imaginary multiples of 1/8: all results are exact."""
    n = draw(gens.n_orbitals(12))
    num = st.tuples(st.sampled_from(EIGHTHS), st.booleans()).map(lambda t: [0.0, t[0] / 8] if t[1] else t[0] / 8)
    psi = draw(gens.states(n, 1, 6, num))
    op = draw(gens.aimed_operators(n, [m for m, _ in psi], 1, 6, value=num))
    r = draw(st.one_of(st.none(), gens.restriction_sets(n)))
    return {"n": n, "op": op, "psi": psi, "r": r, "pick": draw(st.integers(0, 99)), "side": draw(st.integers(0, 2)), "cache": draw(st.booleans())}


def check_edge(ctx, case):
    from impurityModel.ed import finite

    n, op, psi, r = case["n"], gens.toop(case["op"]), gens.topsi(case["psi"]), gens.torestr(case["r"])
    want = {m: complex(a) for m, a in ref.apply(op, psi, r).items()}
    # only purely real or imaginary amplitudes have an exactly representable modulus
    w2 = sorted({a.real**2 + a.imag**2 for a in want.values() if a != 0 and (a.real == 0 or a.imag == 0)})
    if not w2:
        ctx.label("nothing to cut")
        return
    cut = w2[case["pick"] % len(w2)]
    ctx.nontrivial(True)
    ctx.label("squared amplitude equal to the cutoff" if not case["side"] else "close to the cutoff")
    if case["side"]:
        cut *= 1 + 1e-6 if case["side"] == 1 else 1 - 1e-6
    kw = {"opResult": {}} if case["cache"] else {}
    got = ref.psi_in(ctx, ctx.call(finite.applyOp, n, op, ref.psi_out(psi, n), cut, r, **kw), n)
    for m in set(got) | set(want):
        a = want.get(m, 0j)
        x = a.real**2 + a.imag**2
        if a.real != 0 and a.imag != 0 and abs(x - cut) < 1e-9 * cut:
            continue
        ctx.check((m in got) == (x >= cut), "%s with squared amplitude %r is %s, cutoff %r", list(ref.bits(m)), x, "kept" if m in got else "missing", cut)
        if m in got:
            ctx.check(abs(got[m] - a) < 1e-12 * (1 + abs(a)), "amplitude of %s is %r, expected %r", list(ref.bits(m)), got[m], a)


def many(rng, n, k):
    """k random product states around a few centres, so that operators connect them."""
    centre = [rng.getrandbits(n) for _ in range(3)]
    out = set()
    for _ in range(20 * k):
        if len(out) == min(k, 1 << n):
            break
        m = rng.choice(centre)
        for _ in range(rng.randrange(4)):
            m ^= 1 << rng.randrange(n)
        out.add(m if rng.random() < 0.8 else rng.getrandbits(n))
    return sorted(out)


def bigcase(lo=20, hi=400, procs=120, orbitals=6):
    return st.fixed_dictionaries({"n": gens.n_orbitals(40, lo=orbitals), "k": st.integers(lo, hi), "procs": st.integers(1, procs),
                                  "vals": st.integers(1, 40), "seed": st.integers(0, 2**40), "r": st.booleans(), "cache": st.booleans()})


def decode_big(case, maxlen=4):
    import random

    rng = random.Random(case["seed"])
    n = case["n"]
    table = [gens.tocplx(rng.choice(gens.TABLE)) for _ in range(case["vals"])]
    psi = {m: rng.choice(table) for m in many(rng, n, case["k"])}
    ms = list(psi)
    op = {}
    for _ in range(case["procs"]):
        code = [rng.randrange(8 * n) for _ in range(rng.randint(2, 1 + maxlen))]
        op[tuple(map(tuple, gens._process(code, n, ms, maxlen, False)))] = rng.choice(table)
    r = None
    if case["r"]:
        r = {}
        for _ in range(rng.randint(1, 3)):
            orbs = frozenset(i for i in range(n) if rng.random() < 0.5)
            c = ref.popcount(rng.choice(ms) & ref.mask_of(orbs))
            r[orbs] = (max(0, c - rng.randrange(4)), c + rng.randrange(4))
    return n, op, psi, r


def check_big(ctx, case):
    from impurityModel.ed import finite

    n, op, psi, r = decode_big(case, 7 if case["seed"] % 4 == 0 else 4)
    want, scale = ref.apply(op, psi, r), ref.touched(op, psi, r)
    ctx.nontrivial(len(want) > 50)
    inp = ref.psi_out(psi, n)
    keep = copy.deepcopy((op, inp, r))
    got = ctx.call(finite.applyOp, n, op, inp, restrictions=r, **({"opResult": {}} if case["cache"] else {}))
    ctx.same_args(keep, (op, inp, r), "applyOp")
    ref.compare_states(ctx, ref.psi_in(ctx, got, n), want, "op|psi>", cut=1e-12, scale=scale)


SUBS = [
    Sub("exact", lambda t: case(20 if t == "quick" else 40, False), check, 8000, shards=3),
    Sub("restricted", lambda t: case(20 if t == "quick" else 40, True), check, 8000, shards=3),
    Sub("wide", lambda t: case(130, True), check, 1500),
    Sub("cutoff", lambda t: cutcase(), check_cut, 3500),
    Sub("edge", lambda t: edgecase(), check_edge, 3000),
    Sub("big", lambda t: bigcase(), check_big, 120),
    Sub("huge", lambda t: bigcase(1000, 6000, 12, 14), check_big, 10),
]
