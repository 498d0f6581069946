"""P04 Caching of operator results never changes an answer."""

import copy

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub, deep_equal

PROP = "P04"
RULE = (
    "Stateful: one operator, one set of restrictions (or none), one cutoff and one result cache; a history of up to 12 steps "
    "applies the operator to random superpositions of a small pool of product states (so cached and new ones mix, also "
    "product states reached by earlier results), scribbles over earlier returned states, and repeats earlier applications. "
    "After every step the answer is compared with the exact result and the whole cache with the operator applied to each "
    "product state acted on so far; old entries must be unchanged. Further histories "
    "mix weak and strong processes, small and large amplitudes with cutoffs in between, or use many product states. Non-trivial: some application meets both a cached and a new product state."
)
ASSUMPTIONS = ["a cache belongs to one operator, one set of restrictions and one cutoff, as in all callers"]


@st.composite
def case(draw, restricted):
    n = draw(gens.n_orbitals(17, lo=2))
    pool = draw(gens.masks(n, 2, 7))
    op = draw(gens.aimed_operators(n, pool, 1, 7, maxlen=draw(st.sampled_from([4, 4, 6]))))
    r = None
    if restricted:
        out = sorted(ref.apply(gens.toop(op), {m: 1 for m in pool}))
        around = draw(st.sampled_from(out)) if out else None
        r = draw(gens.restriction_sets(n, around=around))
    step = st.one_of(
        st.tuples(st.just("apply"), st.lists(st.tuples(st.integers(0, 9), gens.numbers()), min_size=0, max_size=4)),
        st.tuples(st.just("apply"), st.lists(st.tuples(st.integers(0, 9), gens.numbers()), min_size=1, max_size=4)),
        st.tuples(st.just("scribble"), st.integers(0, 20)),
        st.tuples(st.just("again"), st.integers(0, 20)),
        st.tuples(st.just("chain"), st.integers(0, 20)),
    )
    return {
        "n": n, "pool": pool, "op": op, "r": r,
        "cut": draw(st.sampled_from([1e-12, 1e-12, 1e-20, 1e-7])),
        "steps": draw(st.lists(step, min_size=2, max_size=12)),
    }


def check(ctx, case):
    from impurityModel.ed import finite

    n, pool, r, cut = case["n"], case["pool"], gens.torestr(case["r"]), case["cut"]
    op = gens.toop(case["op"])
    op0, r0 = copy.deepcopy(op), copy.deepcopy(r)
    cache, snapshot, acted = {}, {}, set()
    done, model_states = [], []
    for step, arg in case["steps"]:
        if step == "scribble":
            if done:
                out = done[arg % len(done)][1]
                for k in list(out):
                    out[k] = 99.5
                if arg % 2:
                    out.clear()
                ctx.label("scribble")
        else:
            if step == "apply":
                psi = {}
                for k, a in arg:
                    psi[pool[k % len(pool)]] = gens.tocplx(a)
            elif not done:
                continue
            elif step == "again":
                psi = done[arg % len(done)][0]
                ctx.label("repeat")
            else:
                psi = ref.apply(op, done[arg % len(done)][0], r)
                psi = {m: a for m, a in psi.items() if abs(a) > 1e-6 and abs(a) < 1e3}
                ctx.label("chain")
            known = [m for m in psi if m in acted]
            ctx.nontrivial(bool(known) and len(known) < len(psi))
            if known:
                ctx.label("cache hit")
            inp = ref.psi_out(psi, n)
            keep = dict(inp)
            got = ctx.call(finite.applyOp, n, op, inp, cut, r, cache)
            ctx.same_args(keep, inp, "applyOp")
            want, scale = ref.apply(op, psi, r), ref.touched(op, psi, r)
            ref.compare_states(ctx, ref.psi_in(ctx, got, n), want, "cached op|psi>", tol=1e-10, cut=cut, scale=scale)
            plain = ctx.call(finite.applyOp, n, op, inp, cut, r)
            ref.compare_states(ctx, ref.psi_in(ctx, plain, n), want, "uncached op|psi>", tol=1e-10, cut=cut, scale=scale)
            for other in [o for _, o in done] + list(cache.values()):
                ctx.check(other is not got, "the returned state is shared with the cache or an earlier result")
            done.append((psi, got))
            acted |= set(psi)
        # the cache
        keys = set()
        for k, v in cache.items():
            m = ref.dec(k, n)
            ctx.check(m is not None, "cache has an invalid product state %r", k)
            keys.add(m)
            w = ref.apply(op, {m: 1}, r)
            ref.compare_states(ctx, ref.psi_in(ctx, v, n, "cache entry"), w, "cache entry of %s" % list(ref.bits(m)), tol=1e-10, cut=cut, scale=ref.touched(op, {m: 1}, r))
        ctx.check(keys == acted, "cache holds %s, acted on %s", sorted(keys), sorted(acted))
        for k, v in snapshot.items():
            ctx.check(k in cache and cache[k] == v, "existing cache entry of %r altered: %r -> %r", k, v, cache.get(k))
        snapshot = copy.deepcopy(cache)
    ctx.same_args((op0, r0), (op, r), "applyOp")


@st.composite
def cutcase(draw):
    """Weak and strong processes, small and large amplitudes, and cutoffs in between."""
    n = draw(gens.n_orbitals(12, lo=2))
    pool = draw(gens.masks(n, 2, 6))
    strength = st.sampled_from([1e-4, 1e-3, 1e-2, 0.1, 1.0, 3.0])
    val = st.tuples(strength, gens.numbers()).map(lambda t: [t[0] * x for x in t[1]] if isinstance(t[1], list) else t[0] * t[1])
    op = draw(gens.aimed_operators(n, pool, 1, 6, value=val))
    r = None
    if draw(st.booleans()):
        out = sorted(ref.apply(gens.toop(op), {m: 1 for m in pool}))
        r = draw(gens.restriction_sets(n, around=draw(st.sampled_from(out)) if out else None))
    step = st.lists(st.tuples(st.integers(0, 9), val), min_size=1, max_size=4)
    return {"n": n, "pool": pool, "op": op, "r": r, "cut": draw(st.sampled_from([1e-9, 1e-6, 1e-4, 1e-2, 0.1])),
            "steps": draw(st.lists(step, min_size=1, max_size=8))}


def check_cut(ctx, case):
    from impurityModel.ed import finite

    n, pool, r, cut = case["n"], case["pool"], gens.torestr(case["r"]), case["cut"]
    op = gens.toop(case["op"])
    cache, acted, entries = {}, set(), {}
    for step in case["steps"]:
        psi = {pool[k % len(pool)]: gens.tocplx(a) for k, a in step}
        known = [m for m in psi if m in acted]
        acted |= set(psi)
        for m in psi:
            entries[m] = ref.apply(op, {m: 1}, r)
        # what the cached entries do not know of
        lost = {}
        for m in known:
            for k, v in entries[m].items():
                if abs(v) ** 2 < cut * (1 + 1e-9):
                    lost[k] = lost.get(k, 0) + abs(v * psi[m])
        small = any(0 < abs(v) ** 2 < cut for m in psi for v in entries[m].values())
        ctx.nontrivial(small and any(abs(v) ** 2 >= cut for m in psi for v in entries[m].values()))
        got = ref.psi_in(ctx, ctx.call(finite.applyOp, n, op, ref.psi_out(psi, n), cut, r, cache), n)
        want, scale = ref.apply(op, psi, r), ref.touched(op, psi, r)
        for k in set(got) | set(want):
            w, tol = want.get(k, 0), lost.get(k, 0) + 1e-10 * max(1, scale.get(k, 0))
            if k in got:
                ctx.check(abs(got[k] - w) <= tol, "cached op|psi>: amplitude of %s is %r, expected %r", list(ref.bits(k)), got[k], w)
                ctx.check(abs(got[k]) ** 2 >= cut * (1 - 1e-9), "amplitude %r of %s kept in spite of cutoff %g", got[k], list(ref.bits(k)), cut)
            else:
                ctx.check(max(0, abs(w) - tol) ** 2 < cut, "cached op|psi>: %s with amplitude %r missing (cutoff %g)", list(ref.bits(k)), w, cut)
        ctx.check({ref.dec(k, n) for k in cache} == acted, "cache holds other product states than acted on")
        for m in acted:
            e = ref.psi_in(ctx, cache[ref.enc(m, n)], n, "cache entry")
            ref.compare_states(ctx, e, entries[m], "cache entry of %s" % list(ref.bits(m)), tol=1e-10, cut=cut, scale=ref.touched(op, {m: 1}, r))


def check_big(ctx, case):
    """Several superpositions of many product states through one cache."""
    import random

    from checks.p01 import decode_big
    from impurityModel.ed import finite

    n, op, psi, r = decode_big(case)
    rng = random.Random(case["seed"] + 1)
    cache, acted = {}, set()
    for _ in range(3):
        part = {m: a * rng.choice([1, -2, 0.5]) for m, a in psi.items() if rng.random() < 0.6}
        ctx.nontrivial(bool(acted & set(part)) and bool(set(part) - acted))
        acted |= set(part)
        got = ref.psi_in(ctx, ctx.call(finite.applyOp, n, op, ref.psi_out(part, n), 1e-12, r, cache), n)
        ref.compare_states(ctx, got, ref.apply(op, part, r), "cached op|psi>", cut=1e-12, scale=ref.touched(op, part, r))
        ctx.check({ref.dec(k, n) for k in cache} == acted, "cache holds other product states than acted on")
        for m in acted:
            e = ref.psi_in(ctx, cache[ref.enc(m, n)], n, "cache entry")
            ref.compare_states(ctx, e, ref.apply(op, {m: 1}, r), "cache entry", tol=1e-10, cut=1e-12, scale=ref.touched(op, {m: 1}, r))


def bigcase():
    return st.fixed_dictionaries({"n": gens.n_orbitals(40, lo=6), "k": st.integers(20, 150), "procs": st.integers(1, 60),
                                  "vals": st.integers(1, 40), "seed": st.integers(0, 2**40), "r": st.booleans()})


SUBS = [
    Sub("free", lambda t: case(False), check, 3500, shards=4),
    Sub("restricted", lambda t: case(True), check, 3500, shards=4),
    Sub("cutoff", lambda t: cutcase(), check_cut, 2500, shards=2),
    Sub("big", lambda t: bigcase(), check_big, 80),
]
