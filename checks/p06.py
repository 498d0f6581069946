"""P06 Many-body states form an inner-product space."""

import copy

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P06"
RULE = (
    "Three many-body states (0-8 product states each, sharing product states), two complex factors and a history of in-place "
    "additions are drawn; overlaps, squared norms and additions are compared with exact sums and with the axioms of an "
    "inner-product space, and the aliasing of arguments and results is checked; a part of the cases has hundreds of product states, many of them with "
    "equal amplitudes. Non-trivial: the first two states share a "
    "product state and have complex amplitudes."
)


@st.composite
def case(draw):
    n = draw(gens.n_orbitals(17))
    pool = draw(gens.masks(n, 1, 10))
    num = draw(st.sampled_from([gens.numbers(), gens.numbers(), gens.scaled()]))
    def state():
        ks = draw(st.lists(st.integers(0, len(pool) - 1), max_size=8))
        ks = list(dict.fromkeys(ks))
        return [[pool[k], a] for k, a in zip(ks, draw(st.lists(num, min_size=len(ks), max_size=len(ks))))]
    def relative(x):
        # a state that differs from x in a few amplitudes
        out = [list(t) for t in x]
        for i, a in draw(st.lists(st.tuples(st.integers(0, 9), num), max_size=3)):
            if out:
                a, b = gens.tocplx(a), gens.tocplx(out[i % len(out)][1])
                z = complex(b + [a, a.real, 1j * a.real][i % 3] if i else -b)
                out[i % len(out)][1] = [z.real, z.imag]
        return out
    x, y = state(), state()
    z = relative(y) if draw(st.integers(0, 2)) == 0 else state()
    factor = st.one_of(gens.numbers(), st.sampled_from([1, -1, -1, 0, 1.0, 0.5, [0.0, 1.0]]))
    return {
        "n": n, "x": x, "y": y, "z": z,
        "s": draw(gens.numbers()), "t": draw(factor),
        "hist": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.one_of(st.none(), factor)), max_size=6)),
    }


def check(ctx, case):
    from impurityModel.ed import finite

    n = case["n"]
    X, Y, Z = (gens.topsi(case[k]) for k in "xyz")
    x, y, z = (ref.psi_out(p, n) for p in (X, Y, Z))
    s, t = gens.tocplx(case["s"]), gens.tocplx(case["t"])
    shared = set(X) & set(Y)
    ctx.nontrivial(bool(shared) and any(complex(X[m]).imag for m in shared))
    ctx.label("shared" if shared else "disjoint")
    keep = copy.deepcopy((x, y, z))

    def num(v, what):
        return complex(ctx.array(v, (), what))

    def inner(p, q):
        return num(ctx.call(finite.inner, p, q), "inner")

    def near(a, b, what):
        ctx.check(abs(a - b) <= 1e-9 * (1 + abs(b)), "%s: %r != %r", what, a, b)

    near(inner(x, y), ref.inner(X, Y), "<x|y>")
    near(inner(y, x), complex(ref.inner(X, Y)).conjugate(), "<y|x>")
    near(num(ctx.call(finite.norm2, x), "norm2"), sum(abs(v) ** 2 for v in X.values()), "norm2")
    near(inner(x, x), num(ctx.call(finite.norm2, x), "norm2"), "<x|x>")
    # linearity, with the sums made by add()
    yz = ctx.call(finite.add, y, z, t)
    want = {m: Y.get(m, 0) + t * Z.get(m, 0) for m in set(Y) | set(Z)}
    got = ref.psi_in(ctx, yz, n, "add")
    ref.compare_states(ctx, got, want, "y + t z", cut=None)
    near(inner(x, yz), ref.inner(X, Y) + t * ref.inner(X, Z), "<x|y + t z>")
    near(inner(yz, x), ref.inner(Y, X) + complex(t).conjugate() * ref.inner(Z, X), "<y + t z|x>")
    near(num(ctx.call(finite.norm2, yz), "norm2"), sum(abs(v) ** 2 for v in want.values()), "|y + t z|^2")
    ref.compare_states(ctx, ref.psi_in(ctx, ctx.call(finite.add, y, z), n), {m: Y.get(m, 0) + Z.get(m, 0) for m in set(Y) | set(Z)}, "y + z")
    ctx.same_args(keep, (x, y, z), "inner/norm2/add")
    ctx.check(yz is not y and yz is not z, "add returned one of its arguments")
    yz[b"\xff" * 9] = 1
    ctx.same_args(keep, (x, y, z), "add (after changing its result)")
    # a history of in-place additions between three registers, against a model
    regs, model = [dict(x), dict(y), dict(z)], [dict(X), dict(Y), dict(Z)]
    for a, b, mul in case["hist"]:
        if a == b:
            continue
        f = 1 if mul is None else gens.tocplx(mul)
        others = copy.deepcopy([regs[k] for k in range(3) if k != a])
        obj = regs[a]
        if mul is None:
            ctx.call(finite.addToFirst, regs[a], regs[b])
        else:
            ctx.call(finite.addToFirst, regs[a], regs[b], f)
        for m, v in model[b].items():
            model[a][m] = model[a].get(m, 0) + f * v
        ctx.check(regs[a] is obj, "register replaced")
        ctx.same_args(others, [regs[k] for k in range(3) if k != a], "addToFirst")
        ref.compare_states(ctx, ref.psi_in(ctx, regs[a], n), model[a], "addToFirst")
        ctx.label("in-place history")


def bigcase(hi=400, orbitals=6):
    return st.fixed_dictionaries({"n": gens.n_orbitals(40, lo=orbitals), "k": st.tuples(st.integers(hi // 4 if hi > 400 else 0, hi), st.integers(0, hi)),
                                  "vals": st.integers(1, 40), "seed": st.integers(0, 2**40), "f": gens.numbers()})


def check_big(ctx, case):
    """Many product states, many of them with equal amplitudes."""
    import random

    from checks.p01 import many
    from impurityModel.ed import finite

    rng = random.Random(case["seed"])
    n = case["n"]
    table = [gens.tocplx(rng.choice(gens.TABLE)) for _ in range(case["vals"])]
    pool = many(rng, n, max(500, max(case["k"]) * 5 // 4))
    X, Y = ({m: rng.choice(table) for m in rng.sample(pool, min(k, len(pool)))} for k in case["k"])
    f = gens.tocplx(case["f"])
    ctx.nontrivial(len(set(X) & set(Y)) > 20)
    x, y = ref.psi_out(X, n), ref.psi_out(Y, n)
    keep = copy.deepcopy((x, y))

    def near(a, b, what):
        a = complex(ctx.array(a, (), what))
        ctx.check(abs(a - b) <= 1e-9 * (1 + abs(b) + sum(abs(v) for v in X.values())), "%s: %r != %r", what, a, b)

    near(ctx.call(finite.inner, x, y), ref.inner(X, Y), "<x|y>")
    near(ctx.call(finite.inner, y, x), ref.inner(Y, X), "<y|x>")
    near(ctx.call(finite.norm2, x), sum(abs(v) ** 2 for v in X.values()), "norm2")
    want = {m: X.get(m, 0) + f * Y.get(m, 0) for m in set(X) | set(Y)}
    ref.compare_states(ctx, ref.psi_in(ctx, ctx.call(finite.add, x, y, f), n), want, "x + f y")
    ctx.same_args(keep, (x, y), "inner/norm2/add")
    ctx.call(finite.addToFirst, x, y, f)
    ref.compare_states(ctx, ref.psi_in(ctx, x, n), want, "addToFirst")
    ctx.same_args(keep[1], y, "addToFirst")


SUBS = [Sub("space", lambda t: case(), check, 12000, shards=7), Sub("big", lambda t: bigcase(), check_big, 300), Sub("huge", lambda t: bigcase(9000, 16), check_big, 8)]
