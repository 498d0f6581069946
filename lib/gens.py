"""
Hypothesis strategies of JSON-able building blocks.

To keep generation fast, each building block is drawn as few integers as possible, which
are decoded deterministically (small integers decode to simple things, so shrinking works).
"""

import random

from hypothesis import strategies as st


# ---------------------------------------------------------------- numbers
def _table():
    rng = random.Random(12345)  # a fixed table of values, not a source of randomness
    t = [1, -1, 2, 0.5, [0.0, 1.0], -0.25, 3, [0.0, -1.0], [1.0, 1.0], -1.5, 1.0, [1.0, 0.0], [2.0, -0.5], -2]
    while len(t) < 1500:
        k = rng.randrange(6)
        x = round(rng.uniform(-4, 4), 6)
        y = round(rng.uniform(-4, 4), 6)
        if abs(x) < 0.0625 or abs(y) < 0.0625:
            continue
        if k <= 1:
            t.append(x)
        elif k == 2:
            t.append(rng.randrange(1, 33) / 8 * rng.choice([1, -1]))
        elif k == 3:
            t.append([x, y])
        elif k == 4:
            t.append([rng.randrange(-8, 9) / 8, rng.choice([-1, 1]) * rng.randrange(1, 9) / 8])
        else:
            t.append(rng.choice([[0.0, y], [x, 0.0]]))
    return t


TABLE = _table()
RTABLE = [x for x in TABLE if not isinstance(x, list)]


def numbers():
    """int, float or complex value (complex as [re, im]), never zero, modulus between 1/16 and 6."""
    return st.integers(0, len(TABLE) - 1).map(TABLE.__getitem__)


FACTORS = [1] * 12 + [0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-7]


def scaled(factors=FACTORS):
    """Like numbers(), but now and then much smaller."""
    def dec(k):
        x, f = TABLE[k % len(TABLE)], factors[k // len(TABLE)]
        return x if f == 1 else [f * y for y in x] if isinstance(x, list) else f * x

    return st.integers(0, len(TABLE) * len(factors) - 1).map(dec)


def rnumbers():
    """int or float, never zero"""
    return st.integers(0, len(RTABLE) - 1).map(RTABLE.__getitem__)


def nearly_real(eps=2e-3):
    """Complex values with a small imaginary part."""
    n = len(RTABLE)
    return st.tuples(st.integers(0, n - 1), st.integers(-4, 4)).map(lambda t: [float(RTABLE[t[0]]), eps * t[1]])


def rscaled(factors=FACTORS):
    n = len(RTABLE)
    return st.integers(0, n * len(factors) - 1).map(lambda k: RTABLE[k % n] * factors[k // n])


def tocplx(z):
    """JSON number or [re, im] -> number, keeping plain reals real."""
    if isinstance(z, list):
        return complex(z[0], z[1])
    return z


def _real(k, lim):
    # even: coarse grid, odd: irrational-looking
    s = 1 if k & 2 else -1
    j = k >> 2
    if k & 1:
        return round(s * lim * ((j * 0.6180339887498949) % 1.0), 9)
    return s * (j % (int(lim * 8) + 1)) / 8


def reals(lim=4.0):
    """Moderate real numbers: a coarse grid (so coincidences and zeros happen) and irrational-looking ones."""
    return st.integers(0, 1 << 14).map(lambda k: _real(k, lim))


def nonzero(lim=4.0, low=0.0625):
    return reals(lim).map(lambda x: x if abs(x) >= low else low + abs(x))


def positive(lo, hi):
    return st.integers(0, 10000).map(lambda k: round(lo + (hi - lo) * k / 10000, 9))


def cplx(lim=4.0):
    """[re, im]"""
    return st.integers(0, 1 << 28).map(lambda k: _cplx(k, lim))


def _cplx(k, lim):
    kind, k = k % 4, k // 4
    x, y = _real(k & 8191, lim), _real(k >> 13, lim)
    return [[x, y], [x, 0.0], [0.0, y], [y, x]][kind]


def cnonzero(lim=4.0):
    return cplx(lim).map(lambda z: z if abs(z[0]) + abs(z[1]) >= 0.0625 else [z[0] + 0.5, z[1]])


# ---------------------------------------------------------------- product states and states
EDGES = [1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65]


def n_orbitals(hi=20, lo=1):
    """Numbers of spin-orbitals, emphasising the byte boundaries."""
    edges = [x for x in EDGES if lo <= x <= hi]
    all_ = list(range(lo, hi + 1)) + edges * 2
    return st.sampled_from(sorted(all_))


def mask(n):
    k = (n + 7) // 8
    return st.binary(min_size=k, max_size=k).map(lambda b: int.from_bytes(b, "big") & ((1 << n) - 1))


def masks(n, lo, hi):
    """Distinct product states"""
    k = (n + 7) // 8

    def dec(bs):
        out = list(dict.fromkeys(int.from_bytes(bs[i : i + k], "big") & ((1 << n) - 1) for i in range(0, len(bs) - k + 1, k)))
        i = 0
        while len(out) < min(lo, 1 << n):
            if i not in out:
                out.append(i)
            i += 1
        return out

    hi = min(hi, 1 << n)
    return st.binary(min_size=k * lo, max_size=k * hi).map(dec)


@st.composite
def states(draw, n, lo=0, hi=8, amp=None):
    """[[mask, amp], ...]"""
    ms = draw(masks(n, lo, hi))
    amps = draw(st.lists(amp if amp is not None else numbers(), min_size=len(ms), max_size=len(ms)))
    return [[m, a] for m, a in zip(ms, amps)]


def topsi(s):
    return {m: tocplx(a) for m, a in s}


# ---------------------------------------------------------------- operators
def _process(code, n, ms, maxlen, conserving):
    """Decode a list of integers (one per ladder operator) into a process."""
    head, steps = code[0], code[1:]
    if conserving:
        k = max(1, len(steps) // 2)
        steps = (steps + steps)[: 2 * k]
        if ms and head % 3:
            # first the removals from occupied, then the creations in empty spin-orbitals, of ms[...]
            cur = ms[(head // 3) % len(ms)]
            out = []
            for j, s in enumerate(steps):
                want = j < k
                i = s % n
                for d in range(n):
                    if bool(cur >> ((i + d) % n) & 1) == want:
                        i = (i + d) % n
                        cur ^= 1 << i
                        break
                out.append([i, "a" if want else "c"])
            return out[::-1]
        return [[s % n, "c"] for s in steps[:k]] + [[s % n, "a"] for s in steps[k:]]
    if ms and head % 3:
        cur = ms[(head // 3) % len(ms)]
        out = []
        for s in steps:
            i, s = s % n, s // n
            if s & 1:
                want = bool(s & 2)
                for d in range(n):
                    j = (i + d) % n
                    if bool(cur >> j & 1) == want:
                        i = j
                        break
            out.append([i, "a" if cur >> i & 1 else "c"])
            cur ^= 1 << i
        return out[::-1]
    return [[s % n, "c" if (s // n) & 1 else "a"] for s in steps]


def aimed_operators(n, ms=(), lo=0, hi=8, maxlen=4, conserving=False, value=None):
    """
    [[process, value], ...] with distinct processes; two out of three are built so that they do
    not annihilate one of the product states ms.
    """
    ms = list(ms)
    code = st.lists(st.integers(0, 8 * n - 1), min_size=2, max_size=1 + maxlen)

    def dec(items):
        out = {}
        for c, v in items:
            p = _process(c, n, ms, maxlen, conserving)
            out[tuple(map(tuple, p))] = v
        return [[[list(x) for x in p], v] for p, v in out.items()]

    return st.lists(st.tuples(code, value if value is not None else numbers()), min_size=lo, max_size=hi).map(dec)


def operators(n, lo=0, hi=8, maxlen=4, conserving=False, value=None):
    return aimed_operators(n, (), lo, hi, maxlen, conserving, value)


def toop(o):
    return {tuple((i, k) for i, k in p): tocplx(v) for p, v in o}


def hermitian_part(op):
    """Hermitian operator X + X^dagger as a dict (exactly Hermitian term by term)."""
    out = {}
    for p, v in op.items():
        q = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        v = complex(v)
        out[p] = out.get(p, 0) + v
        out[q] = out.get(q, 0) + v.conjugate()
    return {p: v for p, v in out.items() if v != 0}


@st.composite
def restriction_sets(draw, n, around=None, maxn=3):
    """[[[orbitals], lo, hi], ...]; if around (a mask) is given, that product state satisfies them all."""
    out = []
    for _ in range(draw(st.integers(0, maxn))):
        m = draw(mask(n))
        x = draw(st.integers(0, 39999))
        wide, x = x // 10000, x % 10000
        if wide == 3 and x % 5 == 0:
            m = 0  # no spin-orbitals at all
        orbs = [i for i in range(n) if m >> i & 1]
        if [o for o in out if o[0] == orbs]:
            continue
        k = len(orbs)
        if wide == 2:
            # bounds below zero or above the number of spin-orbitals
            c = bin((around or 0) & m).count("1")
            if around is None:
                a, b = sorted([(x % 100) % (k + 4) - 1, (x // 100) % (k + 4) - 1])
            else:
                a, b = c - (x % 100) % (c + 2), c + (x // 100) % (k - c + 3)
        elif around is None:
            a, b = sorted([(x % 100) % (k + 1), (x // 100) % (k + 1)])
            if not k:
                a, b = [(0, 0), (0, 1), (1, 1), (1, 2), (-1, 0)][x // 100 % 5]
        else:
            c = bin(around & m).count("1")
            a = c - (x % 100) % (c + 1)
            b = c + (x // 100) % (k - c + 1)
        out.append([orbs, a, b])
    return out


def torestr(r):
    """None stays None"""
    if r is None:
        return None
    return {frozenset(o): (a, b) for o, a, b in r}
