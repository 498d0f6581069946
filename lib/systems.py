"""Random many-body systems of moderate connected size, shared by the spectroscopy checks."""

import random

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref


@st.composite
def system(draw, hi=18, conserving=None, onsite=True, maxlen=4):
    """n spin-orbitals, a pool of product states, a Hermitian operator that connects some of them, restrictions."""
    n = draw(gens.n_orbitals(hi, lo=2))
    big = n > 6
    if big:
        ne = draw(st.integers(1, 2 if n > 10 else 3))
        pool = [ref.mask_of(draw(st.lists(st.integers(0, n - 1), min_size=ne, max_size=ne, unique=True))) for _ in range(4)]
        if draw(st.booleans()):  # holes instead of electrons
            pool = [((1 << n) - 1) ^ m for m in pool]
        pool = list(dict.fromkeys(pool))
    else:
        pool = draw(gens.masks(n, 2, 5))
    cons = big or conserving or (conserving is None and draw(st.booleans()))
    value = draw(st.sampled_from([None, None, None, None, gens.scaled([1, 0.1, 1e-2]), gens.nearly_real()]))
    op = draw(gens.aimed_operators(n, pool, 1, 7 if big else 9, maxlen=maxlen, conserving=cons, value=value))
    e = []
    if onsite and draw(st.integers(0, 3)):
        e = [draw(gens.reals(3)) for _ in range(n)]
    r = None
    if draw(st.integers(0, 2)) == 0:
        r = draw(gens.restriction_sets(n, around=pool[0]))
    return {"n": n, "pool": pool, "op": op, "e": e, "r": r}


@st.composite
def chain(draw, hi=110):
    """
    One electron or one hole on a chain of sites, numbered in random order, among spectators.

    Started from an end of the chain, each Krylov vector is one site, so that the Lanczos
    recursion has no rounding errors (hoppings are powers of two, real or imaginary), however long the chain.
    """
    length = draw(st.one_of(st.integers(1, hi - 10), st.sampled_from([31, 40, 41, 60, 64, 90, 100])))
    return {
        "length": min(length, hi - 10),
        "extra": draw(st.integers(0, 10)),
        "hole": draw(st.booleans()),
        "seed": draw(st.integers(0, 2**40)),
        "t": draw(st.sampled_from([1.0, 0.25, 2.0])),
        "disorder": draw(st.sampled_from([0.0, 0.5, 1.0, 3.0])),
        "weak": draw(st.one_of(st.just(0), st.just(0), st.integers(8, 18))),  # 2^-weak: one hopping near the start
    }


def decode_chain(c):
    """(n, operator, sites in order, product state without the electron/hole, chain matrix)"""
    rng = random.Random(c["seed"])
    L, n = c["length"], c["length"] + c["extra"]
    order = list(range(n))
    rng.shuffle(order)
    sites, rest = order[:L], order[L:]
    spect = ref.mask_of(i for i in rest if rng.random() < 0.5)
    if c["hole"]:
        spect |= ref.mask_of(sites)
    op = {}
    weak = rng.choice([0, 0, 1, L - 2, L - 2]) if c.get("weak") else -1
    for i, (a, b) in enumerate(zip(sites, sites[1:])):
        t = c["t"] * rng.choice([1, -1, 1j, -1j]) * rng.choice([0.5, 1, 1, 1])
        if i == weak:
            t *= 2.0 ** -c["weak"] / c["t"]
        op[((a, "c"), (b, "a"))] = t
        op[((b, "c"), (a, "a"))] = complex(t).conjugate()
    for i in sites:
        e = c["disorder"] * rng.uniform(-1, 1)
        if e:
            op[((i, "c"), (i, "a"))] = e
    if not op:
        op[((sites[0], "c"), (sites[0], "a"))] = 0.75
    kind = "a" if c["hole"] else "c"
    masks = [ref.act(spect, [(i, kind)])[0] for i in sites]
    return n, op, sites, spect, masks


@st.composite
def large(draw, sizes):
    """A few electrons or holes with random hopping and interactions: hundreds of connected product states."""
    n, ne = draw(st.sampled_from(sizes))
    return {"n": n, "ne": ne, "hole": draw(st.booleans()), "links": draw(st.integers(0, 2 * n)), "pairs": draw(st.integers(0, 6)),
            "real": draw(st.booleans()), "seed": draw(st.integers(0, 2**40))}


def decode_large(c):
    """(operator, function that draws a mask, random generator)"""
    rng = random.Random(c["seed"])
    n, ne = c["n"], c["ne"]
    order = list(range(n))
    rng.shuffle(order)
    op = {}
    links = list(zip(order, order[1:])) + [tuple(rng.sample(order, 2)) for _ in range(c["links"])]
    for i, j in links:
        t = rng.choice([0.3, 0.5, 1.0, -0.7, 1.5]) * (1 if c["real"] else rng.choice([1, 1j, 0.6 + 0.8j]))
        op[((i, "c"), (j, "a"))] = complex(t)
        op[((j, "c"), (i, "a"))] = complex(t).conjugate()
    for i in order:
        op[((i, "c"), (i, "a"))] = rng.uniform(-1.5, 1.5)
    for _ in range(c["pairs"]):
        i, j = rng.sample(order, 2)
        op[((i, "c"), (j, "c"), (j, "a"), (i, "a"))] = rng.uniform(0, 2)
    full = (1 << n) - 1

    def mask(k=0):
        m = ref.mask_of(rng.sample(order, ne + k))
        return full ^ m if c["hole"] else m

    return op, mask, rng


def hamiltonian(c):
    op = gens.hermitian_part(gens.toop(c["op"]))
    for i, e in enumerate(c["e"]):
        if e:
            p = ((i, "c"), (i, "a"))
            op[p] = op.get(p, 0) + e
    return {p: v for p, v in op.items() if v != 0}


def normalized(psi):
    k = np.sqrt(sum(abs(a) ** 2 for a in psi.values()))
    return {m: complex(a) / k for m, a in psi.items()}


def dense(op, masks, r, limit):
    """(H, basis) of the connected set, or None if it is too big."""
    seen = set(masks)
    front = list(seen)
    while front:
        new = []
        for m in front:
            for k in ref.touched(op, {m: 1}, r):
                if k not in seen:
                    seen.add(k)
                    new.append(k)
        front = new
        if len(seen) > limit:
            return None
    basis = sorted(seen)
    return ref.matrix(op, basis), basis


def lanczos_tol(n):
    """
    Accuracy (times the broadening) of the Lanczos recursion for a connected set of n product states.

    Beyond 20 product states or so the vectors lose their orthogonality before the
    space is exhausted; with a broadening of 4 % of the width the error stays below 1e-5.
    """
    return 1e-7 if n <= 20 else 3e-5


@st.composite
def mesh(draw, hi=12, long=True):
    """Energies, or now and then a long equidistant mesh."""
    if long and draw(st.integers(0, 19)) == 0:
        n = draw(st.one_of(st.sampled_from([64, 100, 128, 256, 500, 512, 513, 1000, 1024, 1025, 2000, 3000, 4000, 4097]), st.integers(20, 3000)))
        return {"from": draw(gens.reals(8)), "width": draw(gens.positive(0.1, 40)), "points": n}
    k = draw(st.integers(1, hi))
    if draw(st.booleans()):
        a, b = draw(gens.reals(8)), draw(gens.positive(0.1, 12))
        return [a + b * i / max(k - 1, 1) for i in range(k)]
    return [draw(gens.reals(8)) for _ in range(k)]


def points(m):
    if isinstance(m, dict):
        return np.linspace(m["from"], m["from"] + m["width"], m["points"])
    return np.array(m, dtype=float)
