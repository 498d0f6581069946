"""P08 The restricted many-body basis is exactly the allowed set."""

import itertools
from collections import OrderedDict
from math import comb

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P08"
RULE = (
    "Systems of 1-4 shells (l = 0..3 in any order, each dictionary with an order of its own) with 0-60 bath states, valence/conduction partition, nominal occupation, "
    "tolerance and allowed bath excitations are drawn (sizes limited to a few thousand product states). Every product state is "
    "decoded and its partition occupations compared with the request; the full set is compared with an independent enumeration. "
    "Over-filling requests must be rejected. Non-trivial: at least two partition occupations contribute or two shells have "
    "more than one configuration."
)
ASSUMPTIONS = [
    "requests that ask for removing more electrons than a partition holds are either rejected or treated as asking for all of them"
]


def shell_options(l, nb, nv, dv, dc, tol, n0):
    """Allowed (nImp, nVal, nCon), and whether some requested partition is over-filled / over-depleted."""
    opts, over, under = [], False, False
    for a in range(dv + 1):
        for b in range(dc + 1):
            if abs(a - b) > tol:
                continue
            ni, nval, ncon = n0 + a - b, nv - a, b
            if ncon > nb - nv or ni > 2 * (2 * l + 1):
                over = True
            elif ni < 0 or nval < 0:
                under = True
            else:
                opts.append((ni, nval, ncon))
    return opts, over, under


def count(l, nb, nv, opts):
    return sum(comb(2 * (2 * l + 1), i) * comb(nv, v) * comb(nb - nv, c) for i, v, c in opts)


@st.composite
def case(draw, legal, cap):
    ls = draw(st.permutations([0, 1, 2, 3] if draw(st.booleans()) else [0, 1, 2]))[: draw(st.sampled_from([1, 2, 2, 2, 3, 4]))]
    most = draw(st.sampled_from([3, 3, 3, 8]))
    wide = draw(st.sampled_from([12, 12, 12, 60]))
    shells, total = [], 1
    for l in ls:
        cap_l = 2 * (2 * l + 1)
        nb = draw(st.integers(0, wide))
        nv = draw(st.integers(0, nb))
        dv = draw(st.integers(0, most))
        dc = draw(st.integers(0, most))
        tol = draw(st.integers(0, most))
        n0 = draw(st.integers(0, cap_l))
        if legal:
            dv, dc = min(dv, nv), min(dc, nb - nv)
            tol = min(tol, cap_l)
            # shrink the request until it is legal and small enough
            while True:
                opts, over, under = shell_options(l, nb, nv, dv, dc, tol, n0)
                if not over and not under and total * count(l, nb, nv, opts) <= cap:
                    break
                if dv >= dc and dv > 0:
                    dv -= 1
                elif dc > 0:
                    dc -= 1
                else:
                    n0 = 0 if n0 <= cap_l // 2 else cap_l
                    break
            total *= max(1, count(l, nb, nv, shell_options(l, nb, nv, dv, dc, tol, n0)[0]))
        else:
            nb = nb % 5
            nv = min(nv, nb + draw(st.integers(0, 1)))
            n0 = min(n0 + draw(st.integers(0, 2)), cap_l + 2)
        shells.append([l, nb, nv, dv, dc, tol, n0])
    # the layout follows the first dictionary; the others may list the shells in any order
    return {"shells": shells, "orders": [draw(st.permutations(range(len(shells)))) if draw(st.booleans()) else list(range(len(shells))) for _ in range(5)]}


@st.composite
def largecase(draw):
    """A d or f shell, many baths; up to 40000 product states."""
    l = draw(st.sampled_from([2, 2, 3]))
    nb = draw(st.sampled_from([10, 10, 20, 50, 3]))
    nv = draw(st.sampled_from([nb, nb, nb // 2]))
    n0 = draw(st.integers(2, 8 if l == 2 else 3))
    dv, dc = draw(st.integers(0, 3)), draw(st.integers(0, 2))
    dv, dc = min(dv, nv), min(dc, nb - nv)
    tol = draw(st.integers(0, 3))
    first = draw(st.booleans())
    core = [1, 0, 0, 0, 0, 0, draw(st.sampled_from([6, 6, 5]))] if draw(st.booleans()) else None
    while True:
        opts, over, under = shell_options(l, nb, nv, dv, dc, tol, n0)
        if not over and not under and count(l, nb, nv, opts) * (6 if core and core[6] == 5 else 1) <= 40000:
            break
        dv, dc = (dv - 1, dc) if dv >= dc and dv else (dv, dc - 1)
    sh = [[l, nb, nv, dv, dc, tol, n0]]
    if core:
        sh.insert(0 if first else 1, core)
    return {"shells": sh, "orders": [list(range(len(sh)))] * 5}


def dicts(case):
    names = ["nBaths", "valBaths", "dnValBaths", "dnConBaths", "dnTol", "n0imp"]
    sh = case["shells"]
    orders = [range(len(sh))] + case.get("orders", [range(len(sh))] * 5)
    return [OrderedDict((sh[i][0], sh[i][k]) for i in orders[k - 1]) for k in range(1, 7)], names


def expected(case, nBaths):
    lab = ref.layout(nBaths)
    index = {x: i for i, x in enumerate(lab)}
    per = []
    for l, nb, nv, dv, dc, tol, n0 in case["shells"]:
        opts, over, under = shell_options(l, nb, nv, dv, dc, tol, n0)
        imp = [index[(l, s, m)] for s in range(2) for m in range(-l, l + 1)]
        val = [index[(l, b)] for b in range(nv)]
        con = [index[(l, b)] for b in range(nv, nb)]
        out = set()
        for i, v, c in opts:
            for x in itertools.combinations(imp, i):
                for y in itertools.combinations(val, v):
                    for z in itertools.combinations(con, c):
                        out.add(ref.mask_of(x + y + z))
        per.append(out)
    res = {0}
    for p in per:
        res = {a | b for a in res for b in p}
    return res, len(lab)


def validate(ctx, basis, want, n):
    ctx.check(isinstance(basis, (tuple, list)), "basis is a %s", type(basis))
    got = []
    for b in basis:
        m = ref.dec(b, n)
        ctx.check(m is not None, "invalid product state %r (n=%d)", b, n)
        got.append(m)
    ctx.check(len(set(got)) == len(got), "basis contains duplicates")
    extra, missing = set(got) - want, want - set(got)
    ctx.check(not extra, "forbidden product state %s in the basis", extra and list(ref.bits(min(extra))))
    ctx.check(not missing, "%d product states missing, e.g. %s", len(missing), missing and list(ref.bits(min(missing))))


def check_legal(ctx, case):
    from impurityModel.ed import finite

    d, names = dicts(case)
    keep = [list(x.items()) for x in d]
    want, n = expected(case, d[0])
    opts = [shell_options(*s)[0] for s in case["shells"]]
    ctx.nontrivial(any(len(o) > 1 for o in opts) or sum(len(o) == 1 and count(s[0], s[1], s[2], o) > 1 for o, s in zip(opts, case["shells"])) > 1)
    ctx.label("%d shells" % len(opts))
    if any(s[3] and s[4] and s[5] < max(s[3], s[4]) for s in case["shells"]):
        ctx.label("tolerance restricts")
    if any(s[1] > s[2] and s[2] > 0 for s in case["shells"]):
        ctx.label("valence and conduction bath")
    basis = ctx.call(finite.get_basis, *d)
    ctx.check([list(x.items()) for x in d] == keep, "get_basis modified its arguments")
    validate(ctx, basis, want, n)


def check_any(ctx, case):
    """Possibly illegal requests."""
    from impurityModel.ed import finite

    d, names = dicts(case)
    flags = [shell_options(*s) for s in case["shells"]]
    over = any(f[1] for f in flags) or any(s[2] > s[1] for s in case["shells"]) or any(s[6] > 2 * (2 * s[0] + 1) and f[0] for s, f in zip(case["shells"], flags))
    under = any(f[2] for f in flags)
    size = 1
    for s, f in zip(case["shells"], flags):
        size *= max(1, sum(comb(2 * (2 * s[0] + 1), i) * comb(max(s[2], 0), v) * comb(max(s[1] - s[2], 0), c) for i, v, c in f[0]))
    if over:
        ctx.label("over-filled")
        ctx.nontrivial()
        if size < 50000:
            ctx.raises(finite.get_basis, *d)
        return
    if size > 3000:
        return
    want, n = expected(case, d[0])
    if under:
        ctx.label("over-depleted")
        try:
            import contextlib, io

            with contextlib.redirect_stdout(io.StringIO()):
                basis = finite.get_basis(*d)
        except Exception:
            return
        validate(ctx, basis, want, n)
    else:
        ctx.label("legal")
        validate(ctx, ctx.call(finite.get_basis, *d), want, n)


SUBS = [
    Sub("legal", lambda t: case(True, 600 if t == "quick" else 4000), check_legal, 1600, shards=6),
    Sub("large", lambda t: largecase(), check_legal, 12),
    Sub("any", lambda t: case(False, 0), check_any, 1200, shards=2),
]
