"""P07 Spin-orbital labels and indices are in one-to-one correspondence."""

from collections import OrderedDict

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P07"
RULE = (
    "System layouts are drawn: 1-5 shells with distinct angular momenta 0-5 in any order, plain or grouped in tuples that share "
    "bath states, with 0-60 bath states each, as dict or OrderedDict. For every index and every label of the layout both "
    "translations are compared with an independently listed layout; labels and indices outside the layout must be rejected. "
    "Non-trivial: at least two keys or a grouped key, and at least one bath state."
)
ASSUMPTIONS = ["every angular momentum occurs at most once in a layout"]


@st.composite
def case(draw):
    ls = draw(st.permutations([0, 1, 2, 3] if draw(st.integers(0, 3)) else [0, 1, 2, 3, 4, 5]))[: draw(st.sampled_from([1, 2, 3, 4, 4, 5]))]
    keys, i = [], 0
    while i < len(ls):
        k = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3]))  # 0: plain key, otherwise the length of the tuple
        if k == 0:
            keys.append(ls[i])
            i += 1
        else:
            keys.append(list(ls[i : i + k]))
            i += k
    nb = [draw(st.one_of(st.integers(0, 4), st.integers(0, 60))) for _ in keys]
    return {"layout": [[k, b] for k, b in zip(keys, nb)], "ordered": draw(st.booleans()), "probe": draw(st.integers(0, 1000))}


def check(ctx, case):
    from impurityModel.ed import finite

    nBaths = (OrderedDict if case["ordered"] else dict)((tuple(k) if isinstance(k, list) else k, b) for k, b in case["layout"])
    lab = ref.layout(nBaths)
    N = len(lab)
    keep = list(nBaths.items())
    ctx.nontrivial((len(nBaths) > 1 or any(isinstance(k, tuple) for k in nBaths)) and any(nBaths.values()))
    if any(isinstance(k, tuple) for k in nBaths):
        ctx.label("grouped")
    for i, x in enumerate(lab):
        j = ctx.call(finite.c2i, nBaths, x)
        ctx.check(isinstance(j, int) and j == i, "c2i(%s, %s) = %r, expected %d", keep, x, j, i)
        y = ctx.call(finite.i2c, nBaths, i)
        ctx.check(isinstance(y, tuple) and y == x, "i2c(%s, %d) = %r, expected %r", keep, i, y, x)
    ctx.check(list(nBaths.items()) == keep, "layout modified")
    bad_i = [N, N + 1, N + 7 + case["probe"], -1, -N, -N - 1 - case["probe"]]
    for i in bad_i:
        if not 0 <= i < N:
            ctx.raises(finite.i2c, nBaths, i)
    shells = [l for k in nBaths for l in (k if isinstance(k, tuple) else (k,))]
    bad = []
    for l in range(7):
        if l not in shells:
            bad += [(l, 0, 0), (l, 1, 0)]
        else:
            bad += [(l, 0, l + 1), (l, 1, -l - 1), (l, 2, 0), (l, -1, 0)]
        if l not in nBaths:
            bad.append((l, 0))
    for k, b in nBaths.items():
        bad += [(k, b), (k, b + 1 + case["probe"]), (k, -1)]
        if isinstance(k, tuple) and len(k) > 1:
            bad.append((k[::-1], 0))
    for x in bad:
        if x not in lab:
            ctx.raises(finite.c2i, nBaths, x)


SUBS = [Sub("layout", lambda t: case(), check, 1600, shards=8)]
