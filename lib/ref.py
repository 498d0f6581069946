"""
Independent reference implementation of second quantization.

Product states are Python integers: spin-orbital i is occupied iff bit i is set.
The vacuum-ordered product state is c_i1^dagger c_i2^dagger ... |0> with i1 < i2 < ...,
so acting on spin-orbital i gives the sign (-1)^(number of occupied spin-orbitals below i).
Nothing in here imports the code under test.
"""

import numpy as np


def popcount(x):
    return bin(x).count("1")


# ---------------------------------------------------------------- encodings
def nbytes(n):
    return (n + 7) // 8


def enc(mask, n):
    """bytes encoding: spin-orbital 0 is the most significant bit of byte 0, zero padded at the end."""
    out = bytearray(nbytes(n))
    for i in range(n):
        if mask >> i & 1:
            out[i // 8] |= 0x80 >> (i % 8)
    return bytes(out)


def dec(b, n):
    """Inverse of enc. None if b is not the encoding of a product state of n spin-orbitals."""
    if not isinstance(b, bytes) or len(b) != nbytes(n):
        return None
    mask = 0
    for i in range(8 * len(b)):
        if b[i // 8] & (0x80 >> (i % 8)):
            if i >= n:
                return None
            mask |= 1 << i
    return mask


def bits(mask):
    i = 0
    while mask:
        if mask & 1:
            yield i
        mask >>= 1
        i += 1


def mask_of(indices):
    m = 0
    for i in indices:
        m |= 1 << i
    return m


# ---------------------------------------------------------------- operators
def act(mask, process):
    """Return (mask', sign) of the process acting from right to left, or None."""
    sign = 1
    for i, kind in reversed(process):
        b = 1 << i
        if kind == "c":
            if mask & b:
                return None
        else:
            if not mask & b:
                return None
        if popcount(mask & (b - 1)) & 1:
            sign = -sign
        mask ^= b
    return mask, sign


def allowed(mask, restrictions):
    if restrictions is None:
        return True
    for orbs, (lo, hi) in restrictions.items():
        k = popcount(mask & mask_of(orbs))
        if k < lo or k > hi:
            return False
    return True


def apply(op, psi, restrictions=None):
    """Exact result of op on psi (dict mask: amplitude); states outside the restrictions are dropped."""
    out = {}
    for m, a in psi.items():
        for process, h in op.items():
            r = act(m, process)
            if r is not None:
                out[r[0]] = out.get(r[0], 0) + a * h * r[1]
    if restrictions is not None:
        out = {m: a for m, a in out.items() if allowed(m, restrictions)}
    return out


def touched(op, psi, restrictions=None):
    """All product states that get any contribution, with the sum of the contributions' moduli."""
    out = {}
    for m, a in psi.items():
        for process, h in op.items():
            r = act(m, process)
            if r is not None:
                out[r[0]] = out.get(r[0], 0) + abs(a * h)
    if restrictions is not None:
        out = {m: a for m, a in out.items() if allowed(m, restrictions)}
    return out


def matrix(op, basis_out, basis_in=None):
    """M[i, j] = <basis_out[i]| op |basis_in[j]>."""
    if basis_in is None:
        basis_in = basis_out
    index = {m: i for i, m in enumerate(basis_out)}
    M = np.zeros((len(basis_out), len(basis_in)), dtype=complex)
    for j, m in enumerate(basis_in):
        for process, h in op.items():
            r = act(m, process)
            if r is not None:
                i = index.get(r[0])
                if i is not None:
                    M[i, j] += h * r[1]
    return M


def dagger(op):
    out = {}
    for process, h in op.items():
        p = tuple((i, "c" if k == "a" else "a") for i, k in reversed(process))
        out[p] = out.get(p, 0) + np.conj(h)
    return out


def closure(op, masks, restrictions=None, tol=0.0):
    """All product states reachable from masks by repeated application of op, within the restrictions."""
    seen = set(masks)
    front = list(masks)
    while front:
        new = []
        for m in front:
            for k, a in apply(op, {m: 1}, restrictions).items():
                if abs(a) > tol and k not in seen:
                    seen.add(k)
                    new.append(k)
        front = new
    return seen


def vec(psi, basis):
    index = {m: i for i, m in enumerate(basis)}
    v = np.zeros(len(basis), dtype=complex)
    for m, a in psi.items():
        v[index[m]] = a
    return v


def inner(p, q):
    return sum(np.conj(p[m]) * a for m, a in q.items() if m in p)


def all_masks(n, ne=None):
    return [m for m in range(1 << n) if ne is None or popcount(m) == ne]


# ---------------------------------------------------------------- code under test <-> reference
def psi_out(psi, n):
    """dict mask: amp -> dict bytes: amp (input for the code under test)."""
    return {enc(m, n): a for m, a in psi.items()}


def psi_in(ctx, psi, n, what="state"):
    """Validate a state returned by the code under test and return it as dict mask: complex."""
    ctx.check(isinstance(psi, dict), "%s is not a dict: %.200r", what, psi)
    out = {}
    for k, a in psi.items():
        m = dec(k, n)
        ctx.check(m is not None, "%s contains an invalid product state %r (n=%d)", what, k, n)
        try:
            z = complex(a)
        except Exception:
            ctx.fail("%s has a non-numeric amplitude %r" % (what, a))
        ctx.check(np.isfinite(z.real) and np.isfinite(z.imag), "%s has a non-finite amplitude", what)
        out[m] = z
    return out


def compare_states(ctx, got, want, what="state", tol=1e-10, cut=None, scale=None):
    """
    got: amplitudes from the code under test. want: exact amplitudes.
    cut: product states with |amp|^2 < cut must be absent, and >= cut present,
    except in the rounding margin around the cutoff. cut None: missing = zero.
    scale: dict of the sum of moduli of the contributions (rounding scale).
    """
    for m in set(got) | set(want):
        w = want.get(m, 0)
        s = tol * max(1.0, abs(w), (scale or {}).get(m, 0))
        if m in got:
            ctx.check(abs(got[m] - w) <= s, "%s: amplitude of %s is %r, expected %r", what, list(bits(m)), got[m], w)
            if cut is not None:
                ctx.check((abs(w) + s) ** 2 >= cut * (1 - 1e-9), "%s: %s with squared amplitude %g kept in spite of cutoff %g", what, list(bits(m)), abs(w) ** 2, cut)
        elif cut is None:
            ctx.check(abs(w) <= s, "%s: %s missing, expected amplitude %r", what, list(bits(m)), w)
        else:
            ctx.check(max(abs(w) - s, 0) ** 2 < cut * (1 + 1e-9) or abs(w) <= s, "%s: %s with amplitude %r missing (cutoff %g)", what, list(bits(m)), w, cut)


# ---------------------------------------------------------------- angular momentum
def lm(l):
    return list(range(-l, l + 1))


def Lz(l):
    return np.diag(np.array(lm(l), dtype=complex))


def Lp(l):
    """L+ in the basis m = -l..l"""
    M = np.zeros((2 * l + 1, 2 * l + 1), dtype=complex)
    for i, m in enumerate(lm(l)[:-1]):
        M[i + 1, i] = np.sqrt(l * (l + 1) - m * (m + 1))
    return M


def Lxyz(l):
    p = Lp(l)
    m = p.conj().T
    return (p + m) / 2, (p - m) / 2j, Lz(l)


# spin basis: (down, up)
SX = np.array([[0, 1], [1, 0]], dtype=complex) / 2
SY = np.array([[0, 1j], [-1j, 0]], dtype=complex) / 2
SZ = np.array([[-1, 0], [0, 1]], dtype=complex) / 2


def one_body(M, index):
    """Operator dict of sum_ij M[i,j] c_index[i]^dagger c_index[j]."""
    return {
        ((index[i], "c"), (index[j], "a")): M[i, j]
        for i in range(len(index))
        for j in range(len(index))
        if M[i, j] != 0
    }


def layout(nBaths):
    """List of labels in index order for a plain (integer-keyed) or tuple-keyed layout."""
    out = []
    for key in nBaths:
        for l in key if isinstance(key, tuple) else (key,):
            for s in range(2):
                for m in range(-l, l + 1):
                    out.append((l, s, m))
    for key, nb in nBaths.items():
        for b in range(nb):
            out.append((key, b))
    return out


# ---------------------------------------------------------------- spherical harmonics, own implementation
def _quad(n=24):
    x, w = np.polynomial.legendre.leggauss(n)
    phi = 2 * np.pi * np.arange(2 * n) / (2 * n)
    wphi = 2 * np.pi / (2 * n)
    X, P = np.meshgrid(x, phi, indexing="ij")
    W = np.outer(w, np.full(2 * n, wphi))
    return X.ravel(), P.ravel(), W.ravel()


def ylm(l, m, cost, phi):
    """Complex spherical harmonic with the Condon-Shortley phase, by explicit summation (no scipy)."""
    from math import factorial, pi, sqrt

    cost = np.asarray(cost, dtype=float)
    am = abs(m)
    # Associated Legendre polynomial by recursion
    pmm = np.ones_like(cost)
    s = np.sqrt(np.maximum(0.0, 1 - cost**2))
    for k in range(1, am + 1):
        pmm = pmm * (-(2 * k - 1)) * s
    if l == am:
        p = pmm
    else:
        p0, p1 = pmm, cost * (2 * am + 1) * pmm
        for k in range(am + 2, l + 1):
            p0, p1 = p1, ((2 * k - 1) * cost * p1 - (k + am - 1) * p0) / (k - am)
        p = p1
    N = sqrt((2 * l + 1) / (4 * pi) * factorial(l - am) / factorial(l + am))
    y = N * p * np.exp(1j * am * np.asarray(phi))
    if m < 0:
        y = (-1) ** am * np.conj(y)
    return y


_GC = {}


def ck(k, l, m, lp, mp):
    """c^k(l m; l' m') = sqrt(4pi/(2k+1)) int Y_lm^* Y_k(m-m') Y_l'm' by quadrature."""
    key = (k, l, m, lp, mp)
    if key not in _GC:
        q = m - mp
        if abs(q) > k or abs(m) > l or abs(mp) > lp:
            _GC[key] = 0.0
        else:
            x, p, w = _quad()
            v = np.sum(w * np.conj(ylm(l, m, x, p)) * ylm(k, q, x, p) * ylm(lp, mp, x, p))
            _GC[key] = float((np.sqrt(4 * np.pi / (2 * k + 1)) * v).real)
            if abs(_GC[key]) < 1e-13:
                _GC[key] = 0.0
    return _GC[key]


def coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R):
    """
    <l1m1(1) l2m2(2)| 1/r12 |l4m4(1) l3m3(2)> with radial integrals R[k]:
    sum_k R[k] 4pi/(2k+1) sum_q <l1m1|Y_kq^*|l4m4> <l2m2|Y_kq|l3m3>.
    """
    if m1 + m2 != m3 + m4:
        return 0.0
    u = 0.0
    for k, Rk in enumerate(R):
        if Rk == 0:
            continue
        # <l2 m2|C_kq|l3 m3> = c^k(l2 m2; l3 m3), q = m2 - m3
        # <l1 m1|C_kq^*|l4 m4> = conj(<l4 m4|C_kq|l1 m1>) = c^k(l4 m4; l1 m1), q = m4 - m1
        u += Rk * ck(k, l2, m2, l3, m3) * ck(k, l4, m4, l1, m1)
    return u


# ---------------------------------------------------------------- Krylov / Green's functions
def resolvent(H, v, zs):
    """<v|(z-H)^-1|v> for all z, by dense diagonalization of the Hermitian H."""
    e, U = np.linalg.eigh(H)
    c = np.abs(U.conj().T @ v) ** 2
    zs = np.asarray(zs, dtype=complex)
    return (c[None, :] / (zs[:, None] - e[None, :])).sum(axis=1)


# ---------------------------------------------------------------- canonical form of operators
def normal_order(op):
    """
    Unique normal form of an operator: dict (creations ascending, annihilations descending): value.
    Two operators are the same linear map if and only if their normal forms agree.
    """
    out = {}
    stack = [(tuple(p), complex(v)) for p, v in op.items()]
    while stack:
        p, v = stack.pop()
        # find the first neighbouring pair out of order
        for i in range(len(p) - 1):
            (x, kx), (y, ky) = p[i], p[i + 1]
            if kx == ky:
                if x == y:
                    v = 0
                    break
                if (kx == "c" and x > y) or (kx == "a" and x < y):
                    stack.append((p[:i] + (p[i + 1], p[i]) + p[i + 2 :], -v))
                    v = None
                    break
            elif kx == "a":  # a_x c_y = delta - c_y a_x
                stack.append((p[:i] + (p[i + 1], p[i]) + p[i + 2 :], -v))
                if x == y:
                    stack.append((p[:i] + p[i + 2 :], v))
                v = None
                break
        if v is not None and v != 0:
            out[p] = out.get(p, 0) + v
    return out


def compare_ops(ctx, got, want, what="operator", tol=1e-9, scale=None):
    """Same linear map? (both with integer or label indices that can be ordered)"""
    x, y = normal_order(got), normal_order(want)
    if scale is None:
        scale = max([1.0] + [abs(v) for v in y.values()])
    for p in set(x) | set(y):
        d = abs(x.get(p, 0) - y.get(p, 0))
        if not d <= tol * scale:
            ctx.fail("%s: coefficient of %s is %r, expected %r" % (what, p, x.get(p, 0), y.get(p, 0)))


def check_op(ctx, op, what="operator", labels=None):
    """Validate the structure of an operator returned by the code under test."""
    ctx.check(isinstance(op, dict), "%s is not a dict: %.200r", what, op)
    for p, v in op.items():
        ctx.check(isinstance(p, tuple), "%s: process %r is not a tuple", what, p)
        for e in p:
            ctx.check(isinstance(e, tuple) and len(e) == 2 and e[1] in ("c", "a"), "%s: bad process %r", what, p)
            if labels is not None:
                ctx.check(e[0] in labels, "%s: process %r has a foreign spin-orbital", what, p)
        try:
            z = complex(v)
        except Exception:
            ctx.fail("%s: value of %r is not a number: %r" % (what, p, v))
        ctx.check(np.isfinite(z.real) and np.isfinite(z.imag), "%s: value of %r is %r", what, p, v)
    return op


# ---------------------------------------------------------------- Coulomb operator
def coulomb_op(l1, l2, l3, l4, R):
    """1/2 sum u c1s^+ c2sp^+ c3sp c4s, labels (l, s, m)."""
    out = {}
    for m1 in lm(l1):
        for m2 in lm(l2):
            for m3 in lm(l3):
                m4 = m1 + m2 - m3
                if abs(m4) > l4:
                    continue
                u = coulomb(l1, m1, l2, m2, l3, m3, l4, m4, R)
                if u == 0:
                    continue
                for s in range(2):
                    for sp in range(2):
                        p = (((l1, s, m1), "c"), ((l2, sp, m2), "c"), ((l3, sp, m3), "a"), ((l4, s, m4), "a"))
                        out[p] = out.get(p, 0) + u / 2
    return out


def add(*ops):
    out = {}
    for op in ops:
        for p, v in op.items():
            out[p] = out.get(p, 0) + v
    return out


def coulomb_2p3d(Fdd, Fpp, Fpd, Gpd):
    return add(
        coulomb_op(2, 2, 2, 2, Fdd),
        coulomb_op(1, 1, 1, 1, Fpp),
        coulomb_op(1, 2, 2, 1, Fpd),
        coulomb_op(2, 1, 1, 2, Fpd),
        coulomb_op(1, 2, 1, 2, Gpd),
        coulomb_op(2, 1, 2, 1, Gpd),
    )


def shell_labels(l):
    """spin down first, increasing m"""
    return [(l, s, m) for s in range(2) for m in lm(l)]


def soc_op(xi, l):
    L = Lxyz(l)
    M = xi * sum(np.kron(S, X) for S, X in zip((SX, SY, SZ), L))
    return one_body(M, shell_labels(l))


def field_op(h, l):
    M = sum(x * np.kron(S, np.eye(2 * l + 1)) for x, S in zip(h, (SX, SY, SZ)))
    return one_body(M, shell_labels(l))


def average_repulsion(la, lb, F, G=None):
    """Mean interaction energy of a pair of electrons in shells la and lb (different shells: exchange G)."""
    tot, n = 0.0, 0
    A, B = shell_labels(la), shell_labels(lb)
    for i, (l, s, m) in enumerate(A):
        for j, (k, t, q) in enumerate(B):
            if la == lb and j <= i:
                continue
            n += 1
            tot += coulomb(l, m, k, q, k, q, l, m, F)
            if s == t:
                # exchange: electron 1 from q to m, electron 2 from m to q
                tot -= coulomb(l, m, k, q, l, m, k, q, F if la == lb else G)
    return tot / n


# ---------------------------------------------------------------- cubic harmonics
CUBIC = {
    1: {"x": lambda x, y, z: x, "y": lambda x, y, z: y, "z": lambda x, y, z: z},
    2: {
        "3z2-r2": lambda x, y, z: 3 * z * z - 1,
        "x2-y2": lambda x, y, z: x * x - y * y,
        "xy": lambda x, y, z: x * y,
        "yz": lambda x, y, z: y * z,
        "xz": lambda x, y, z: x * z,
    },
}


def cubic_vectors(l):
    """name -> coefficients in the spherical harmonics m=-l..l, by projection (quadrature), normalized."""
    x, p, w = _quad()
    s = np.sqrt(1 - x * x)
    X, Y, Z = s * np.cos(p), s * np.sin(p), x
    out = {}
    for name, f in CUBIC[l].items():
        v = np.array([np.sum(w * np.conj(ylm(l, m, x, p)) * f(X, Y, Z)) for m in lm(l)])
        out[name] = v / np.linalg.norm(v)
    return out


def projector(l, names):
    c = cubic_vectors(l)
    return sum(np.outer(c[k], np.conj(c[k])) for k in names)


P_EG = projector(2, ("3z2-r2", "x2-y2"))
P_T2G = projector(2, ("xy", "yz", "xz"))


def reindex(op, index):
    return {tuple((index[x], k) for x, k in p): v for p, v in op.items()}
