"""P03 Product-state encodings convert into each other without loss."""

from hypothesis import strategies as st

from checks.p02 import encodings
from lib import gens, ref
from lib.harness import Sub

PROP = "P03"
RULE = (
    "A number of spin-orbitals (1-200, byte boundaries emphasised), a set of occupied spin-orbitals and a chain of encodings "
    "are drawn; all 20 conversions and the chain are compared with directly built encodings of the documented layout. "
    "Non-trivial: at least one spin-orbital occupied and one empty."
)
KINDS = ["tuple", "str", "int", "bitarray", "bytes"]
# conversions that need the number of spin-orbitals
NEEDS_N = {"tuple": {"str", "int", "bitarray", "bytes"}, "int": set(KINDS), "bytes": set(KINDS), "str": set(), "bitarray": set()}


@st.composite
def case(draw, hi):
    n = draw(gens.n_orbitals(hi))
    how = draw(st.integers(0, 9))
    m = draw(gens.mask(n))
    if how == 0:
        m = 0
    elif how == 1:
        m = (1 << n) - 1
    elif how == 2:
        m = 1 << draw(st.integers(0, n - 1))
    return {"n": n, "m": m, "chain": draw(st.lists(st.integers(0, 4), min_size=2, max_size=8))}


def convert(ctx, x, src, dst, n):
    from impurityModel.ed import product_state_representation as psr

    f = getattr(psr, "%s2%s" % (src, dst))
    keep = x.copy() if src == "bitarray" else x
    y = ctx.call(f, x, n) if dst in NEEDS_N[src] else ctx.call(f, x)
    ctx.check(x == keep, "%s2%s modified its argument", src, dst)
    return y


def check(ctx, case):
    n, m = case["n"], case["m"]
    e = encodings(m, n)
    ctx.nontrivial(0 < m < (1 << n) - 1)
    ctx.label("%d padding bits" % (-n % 8))
    for src in KINDS:
        for dst in KINDS:
            if src != dst:
                y = convert(ctx, e[src], src, dst, n)
                ctx.check(
                    type(y) is type(e[dst]) and y == e[dst],
                    "%s2%s(%r, n=%d) = %r, expected %r", src, dst, e[src], n, y, e[dst],
                )
                if dst == "bitarray" and n:
                    # a mutable result belongs to the caller
                    y.invert()
                    y2 = convert(ctx, e[src], src, dst, n)
                    ctx.check(y2 == e[dst], "%s2%s gives another result after changing the first result", src, dst)
    kinds = [KINDS[k] for k in case["chain"]]
    x, cur = e[kinds[0]], kinds[0]
    for nxt in kinds[1:]:
        if nxt != cur:
            x, cur = convert(ctx, x, cur, nxt, n), nxt
    ctx.check(type(x) is type(e[cur]) and x == e[cur], "chain %s of %s (n=%d) ends in %r", kinds, e["tuple"], n, x)


SUBS = [
    Sub("narrow", lambda t: case(26), check, 6000, shards=4),
    Sub("wide", lambda t: case(200), check, 2500, shards=4),
]
