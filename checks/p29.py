"""P29 Observables do not depend on how the physical system is described."""

import itertools
import os
import pickle
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from checks import p08, p20, p21
from lib import gens, ref
from lib.harness import Sub

PROP = "P29"
RULE = (
    "2p-3d systems (all parameters, crystal field or general one-particle terms, up to 10 bath states, occupations, temperature) are drawn "
    "together with a change of description; the complete calculation (Hamiltonian, basis, eigenstates, static averages, spectra, thermal "
    "average) is run with the code under test for both descriptions and mapped onto each other. Non-trivial: the change alters the "
    "Hamiltonian or the operators and the compared spectrum is not zero."
)
ASSUMPTIONS = [
    "only complete groups of degenerate eigenstates are averaged over (gap to the next one above 1e-4 eV)",
    "bases of up to 130 product states, broadenings of at least 0.3 eV and about 5 % of the spectral width",
    "RIXS is compared to 0.2 % of its maximum (iterative solver), everything else to 1e-5",
]
KINDS = ["shift", "perm", "rotate", "extra", "extra", "phase", "gauge", "order", "spin", "cubic", "reverse", "isotropy"]
CUBIC = ("spin", "cubic", "reverse", "isotropy")


def cubic_group():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, p[i]] = s[i]
            out.append(R)
    return out


GROUP = cubic_group()


@st.composite
def case(draw, probes):
    kind = draw(st.sampled_from(KINDS))
    c = {"kind": kind, "seed": draw(st.integers(0, 10**6))}
    # d electrons, electrons that may leave/enter the bath, tolerance
    if kind in CUBIC:
        c["bath"] = draw(st.sampled_from(["", "e", "t", "et", "e", "t"]))
    else:
        c["bath"] = draw(st.integers(0, 5))
    c["side"] = draw(st.sampled_from(["val", "con"]))
    c["nd"] = draw(st.sampled_from([9, 1, 9, 1, 8, 2]))
    c["dn"] = draw(st.integers(0, 1))
    c["tol"] = draw(st.integers(0, 1))
    num = st.one_of(gens.positive(0.5, 8), st.just(0))
    c["sc"] = [draw(num) for _ in range(9)]
    c["xi"] = [draw(gens.positive(0.5, 12)), draw(gens.positive(0.02, 0.4))]
    c["dc"] = draw(gens.reals(2))
    c["cf"] = [draw(gens.reals(2)), draw(gens.nonzero(2, 0.2))]
    c["eb"] = [draw(gens.reals(6)) for _ in range(2)]
    c["vb"] = [draw(gens.nonzero(2)) for _ in range(2)]
    c["h"] = [draw(gens.nonzero(0.3, 0.02)) for _ in range(3)]
    c["field"] = draw(st.sampled_from([1, 1, 1, 0, 2]))  # 2: along z
    c["T"] = draw(st.sampled_from([300, 50, 1000, 5000]))
    c["many"] = draw(st.integers(1, 6))
    c["probe"] = draw(st.sampled_from(probes))
    if kind == "reverse" and c["probe"] == "RIXS":
        # time reversal exchanges absorption and emission
        c["kind"] = "cubic"
    c["delta"] = draw(gens.positive(0.3, 1.0))
    c["q"] = draw(p21.qvec())
    c["restrict"] = draw(st.booleans())
    c["plain"] = draw(st.integers(0, 2)) == 0
    return c


class System:
    """One description: everything the code under test is told."""

    def __init__(self, c):
        rng = np.random.default_rng(c["seed"])
        self.order = [1, 2]
        self.xi, self.h = list(c["xi"]), np.array(c["h"]) * (c["field"] > 0)
        if c["field"] == 2:
            self.h = self.h * [0, 0, 1]
        self.sc = c["sc"]
        self.dc = c["dc"]
        d = c["cf"][0] * np.eye(5) + c["cf"][1] * (0.6 * ref.P_EG - 0.4 * ref.P_T2G)
        d = np.kron(np.eye(2), d)
        if c["kind"] in CUBIC:
            vec = ref.cubic_vectors(2)
            names = [x for x in (("3z2-r2", "x2-y2") if "e" in c["bath"] else ())] + [x for x in (("xy", "yz", "xz") if "t" in c["bath"] else ())]
            A = np.array([vec[x].conj() for x in names]).reshape(len(names), 5)
            k = [0 if x in ("3z2-r2", "x2-y2") else 1 for x in names]
            E = np.diag([c["eb"][i] for i in k]).astype(complex).reshape(len(names), len(names))
            V = np.array([c["vb"][i] for i in k])[:, None] * A
            E, V = np.kron(np.eye(2), E), np.kron(np.eye(2), V)
        else:
            nb = c["bath"]
            if c["kind"] == "extra" and nb < 2:
                nb += 2
            x = rng.normal(size=(10, 10)) + 1j * rng.normal(size=(10, 10)) * (rng.random() < 0.5)
            d = d + 0.2 * (x + x.conj().T) * (not c["plain"])
            E = rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb)) * (rng.random() < 0.5)
            E = E + E.conj().T + c["eb"][0] * np.eye(nb)
            V = (rng.normal(size=(nb, 10)) + 1j * rng.normal(size=(nb, 10))) * c["vb"][0] * 0.5
            if c["plain"]:
                # each bath state couples to one orbital
                V = V * (np.arange(10) == rng.permutation(10)[:nb, None])
                E = np.diag(np.diag(E))
        nb = len(E)
        self.nb = nb
        self.nv = nb if c["side"] == "val" else 0
        h = np.zeros((10 + nb, 10 + nb), dtype=complex)
        h[:10, :10], h[10:, 10:], h[10:, :10], h[:10, 10:] = d, E, V, V.conj().T
        self.h1 = (h + h.conj().T) / 2
        self.core = 0.0
        self.nd = c["nd"]
        dn = c["dn"] if nb else 0
        self.dv, self.dc_ = (min(dn, self.nv), 0) if c["side"] == "val" else (0, min(dn, nb))
        self.tol = c["tol"]
        self.extra = 0
        self.psi_phase = self.op_phase = 1.0
        self.gauge = None

    def copy(self):
        import copy

        return copy.deepcopy(self)

    # what the code under test gets
    def dicts(self):
        n2 = {"nBaths": self.nb, "nVal": self.nv, "dv": self.dv, "dc": self.dc_, "tol": self.tol, "n0": self.nd}
        n1 = {"nBaths": 0, "nVal": 0, "dv": 0, "dc": 0, "tol": 0, "n0": 6}
        return {k: OrderedDict((l, (n1 if l == 1 else n2)[k]) for l in self.order) for k in n1}

    def labels(self):
        return ref.shell_labels(2) + [(2, b) for b in range(self.nb)]


def hamiltonian(ctx, s):
    from impurityModel.ed import get_spectra as gs

    D = s.dicts()
    h0 = {}
    lab = s.labels()
    for i, x in enumerate(lab):
        for j, y in enumerate(lab):
            v = complex(s.h1[i, j])
            if abs(v) > 1e-13:
                h0[((x, "c"), (y, "a"))] = v.real if i == j else v
    if s.core:
        for x in ref.shell_labels(1):
            h0[((x, "c"), (x, "a"))] = s.core
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p29_%d.pickle" % os.getpid())
    with open(path, "wb") as f:
        pickle.dump(h0, f)
    q = s.sc
    sc = [(q[0], 0, q[1], 0, q[2]), (q[3], 0, q[4]), (q[5], 0, q[6]), (0, q[7], 0, q[8])]
    return ctx.call(gs.get_hamiltonian_operator, D["nBaths"], D["nVal"], sc, list(s.xi), [D["n0"], s.dc], tuple(float(x) for x in s.h), path)


def calculate(ctx, s, c, k, eps, epsout, q, w, wL, probe):
    """All observables of one description. k: number of states or None -> chosen."""
    from impurityModel.ed import average, finite, spectra

    D = s.dicts()
    nB = D["nBaths"]
    op = hamiltonian(ctx, s)
    lab = ref.layout(nB)
    index = {x: i for i, x in enumerate(lab)}
    n = len(lab)
    if s.gauge is not None:
        g = {index[x]: z for x, z in s.gauge(lab).items()}
        turn = lambda o: {p: v * np.prod([g[i] if a == "c" else np.conj(g[i]) for i, a in p]) for p, v in o.items()}
        op = turn(op)
    else:
        turn = lambda o: o
    basis = ctx.call(finite.get_basis, nB, D["nVal"], D["dv"], D["dc"], D["tol"], D["n0"])
    es, psis = ctx.call(finite.eigensystem, n, op, basis, len(basis), "full", slaterWeightMin=0)
    es = ctx.array(es, (len(basis),), "energies").real
    if k is None:
        gaps = np.diff(es) > 1e-4
        k = next((i + 1 for i in range(c["many"] - 1, len(gaps)) if gaps[i]), len(es))
        if k > 14:
            k = next((i + 1 for i in range(len(gaps)) if gaps[i]), len(es))
    elif k < len(es) and es[k] - es[k - 1] < 5e-5:
        ctx.fail("the other description has a gap above state %d, this one has not: %s" % (k, es[: k + 1]))
    if s.delta is None:
        # the Lanczos recursion resolves about a hundred states only to a few percent of the spectral width
        s.delta = max(c["delta"], 0.05 * (es[-1] - es[0] + 1.5 * s.xi[0] + 5 + 0.1 * sum(s.sc)))
    delta = s.delta
    few = min(k, 6)
    if few < len(basis) - 1:
        # the iterative solver (it may miss members of degenerate groups, see P11)
        el, _ = ctx.call(finite.eigensystem, n, op, basis, few, "Lanczos")
        el = ctx.array(el, (few,), "energies").real
        size = max(1e-3, np.abs(es).max())
        ctx.check(abs(el[0] - es[0]) < 1e-7 * size, "lowest energy %r, iterative solver %r", es[0], el[0])
        for x in el:
            ctx.check(np.abs(es - x).min() < 1e-7 * size, "the iterative solver gives the energy %r, the spectrum is %s", x, es)
    es, psis = es[:k], psis[:k]
    out = {"E": es, "k": k, "N": len(basis)}
    if s.gauge is None:
        obs = []
        for psi in psis:
            e = list(ctx.call(finite.getEgT2gOccupation, nB, psi))
            obs.append([sum(e), e[0] + e[1], e[2] + e[3], ctx.call(finite.getLsqr3d, nB, psi), ctx.call(finite.getSsqr3d, nB, psi), ctx.call(finite.getTraceDensityMatrix, nB, psi)])
        out["static"] = ctx.call(average.thermal_average, es, np.array(obs), T=c["T"])
    psis = [{m: a * s.psi_phase for m, a in psi.items()} for psi in psis]
    r = None
    if c["restrict"]:
        imp = frozenset(index[x] for x in ref.shell_labels(2))
        r = {imp: (s.nd - 1, s.nd + s.tol + 1)}
        if s.nv:
            r[frozenset(index[(2, b)] for b in range(s.nv))] = (s.nv - s.dv, s.nv)
        if s.nb > s.nv:
            r[frozenset(index[(2, b)] for b in range(s.nv, s.nb))] = (0, s.dc_)
    ph = lambda ts: [{p: v * s.op_phase for p, v in turn(t).items()} for t in ts]
    order = [1, 2] if probe in ("XAS", "RIXS") else list(nB)

    def spec(ts, x, d):
        y = ctx.call(spectra.getSpectra, n, op, ph(ts), psis, es, x, d, r, slaterWeightMin=1e-20)
        return ctx.call(average.thermal_average, es, np.array(y), T=c["T"])

    dip = lambda v: [turn_order(t, s) for t in ctx.call(spectra.getDipoleOperators, OrderedDict((l, nB[l]) for l in (1, 2)), v)]

    def turn_order(t, s):
        """operators built for the order (1, 2) of the shells"""
        if s.order == [1, 2]:
            return t
        lab12 = ref.layout(OrderedDict((l, nB[l]) for l in (1, 2)))
        return {tuple((index[lab12[i]], a) for i, a in p): v for p, v in t.items()}

    if probe == "XAS":
        out["XAS"] = spec(dip(eps), w, delta)
    elif probe == "PS":
        out["IPS"] = spec(ctx.call(spectra.getInversePhotoEmissionOperators, nB, l=2), w, delta).sum(axis=0)
        out["PS"] = spec(ctx.call(spectra.getPhotoEmissionOperators, nB, l=2), -w, -delta).sum(axis=0)
    elif probe == "XPS":
        out["XPS"] = spec(ctx.call(spectra.getPhotoEmissionOperators, nB, l=1), -w, -delta).sum(axis=0)
    elif probe == "NIXS":
        mesh = np.linspace(0.01, 3, 30)
        R = mesh**2 * np.exp(-mesh)
        out["NIXS"] = spec(ctx.call(spectra.getNIXSOperators, nB, [q], 2, 2, R, np.copy(R), mesh), wL, delta)
    elif probe == "RIXS":
        tin = dip(eps)
        xas = spec(tin[:1], w, delta)[0]
        wIn = [w[np.argmax(np.abs(xas))]] if s.wIn is None else s.wIn
        s.wIn = wIn
        tout = ctx.call(spectra.getDaggeredDipoleOperators, OrderedDict((l, nB[l]) for l in (1, 2)), epsout)
        tout = [turn_order(t, s) for t in tout]
        y = ctx.call(spectra.getRIXSmap, n, op, ph(tin), ph(tout), psis, es, np.array(wIn), wL, delta, delta, r, slaterWeightMin=1e-20)
        out["RIXS"] = ctx.call(average.thermal_average, es, np.array(y), T=c["T"])
    return out


def close(ctx, a, b, what, tol):
    a, b = ctx.array(a), ctx.array(b)
    ctx.check(a.shape == b.shape, "%s: shapes %s and %s", what, a.shape, b.shape)
    scale = max(np.abs(a).max(), np.abs(b).max(), 1e-6)
    d = np.abs(a - b)
    i = np.unravel_index(np.argmax(d), d.shape)
    ctx.check(d[i] <= tol * scale + 1e-9, "%s%s: %r and %r", what, list(map(int, i)), a[i], b[i])
    return scale


def sizes(s):
    total = 1
    D = s.dicts()
    for l in s.order:
        row = [l] + [D[k][l] for k in ("nBaths", "nVal", "dv", "dc", "tol", "n0")]
        opts, over, under = p08.shell_options(*row)
        if over or under:
            return None
        total *= p08.count(row[0], row[1], row[2], opts)
    return total


def final(s, probe, restrict):
    """Largest number of product states an excitation can reach."""
    from math import comb

    ne = s.nd + s.nv
    res = 0
    for add, mult in {"XAS": [(1, 6)], "PS": [(1, 1), (-1, 1)], "XPS": [(0, 6)], "NIXS": [(0, 1)], "RIXS": [(1, 6), (0, 1)]}[probe]:
        if not restrict:
            res = max(res, mult * comb(10 + s.nb, min(max(ne + add, 0), 10 + s.nb)))
            continue
        k = 0
        for d in range(max(0, s.nd - 1), min(10, s.nd + s.tol + 1) + 1):
            for a in range(s.dv + 1):
                for b in range(s.dc_ + 1):
                    if d + s.nv - a + b == ne + add and a <= s.nv and b <= s.nb - s.nv:
                        k += comb(10, d) * comb(s.nv, a) * comb(s.nb - s.nv, b)
        res = max(res, mult * k)
    return res


def check(ctx, c):
    kind, probe = c["kind"], c["probe"]
    rng = np.random.default_rng(c["seed"] + 1)
    A = System(c)
    if kind == "spin":
        A.xi = [0.0, 0.0]
    if kind == "isotropy":
        A.h = np.zeros(3)
    if kind in ("spin", "reverse") and not A.h.any():
        A.h = np.array(c["h"])
    limit = 260 if probe != "RIXS" else 180
    fits = lambda: sizes(A) is not None and sizes(A) <= 130 and final(A, probe, c["restrict"]) <= limit
    if not fits():
        c = dict(c, restrict=True)
    if not fits():
        A.tol = 0
    if not fits():
        A.dv = A.dc_ = 0
    if not fits():
        A.nd = 9
    if not fits():
        ctx.exclude("too big")
        return
    A.wIn = A.delta = None
    B = A.copy()
    nb = A.nb
    eps = [[complex(*rng.normal(size=2)) for _ in range(3)] if rng.random() < 0.5 else list(GROUP[rng.integers(48)][0]) for _ in range(1 if probe == "RIXS" else 2)]
    epsout = [list(rng.normal(size=3)) for _ in range(2)]
    q = np.array(c["q"])
    w = np.linspace(-20, 20, 41) + rng.random()
    wL = np.linspace(-2, 12, 29) + 0.1 * rng.random()
    eB, oB, qB, wB = eps, epsout, q, w
    x = 0.0
    if kind == "shift":
        x = float(rng.choice([-7.5, 3.25, 1.0, 0.125]))
        B.h1 = B.h1 + x * np.eye(len(B.h1))
        B.core += x
        wB = w + x if probe in ("PS", "XPS") else w
    elif kind in ("perm", "rotate"):
        if nb < 2:
            ctx.label("nothing to change")
            return
        U = np.eye(nb)[rng.permutation(nb)] if kind == "perm" else np.linalg.qr(rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb)))[0]
        F = np.eye(len(B.h1), dtype=complex)
        F[10:, 10:] = U
        B.h1 = F @ B.h1 @ F.conj().T
        B.h1 = (B.h1 + B.h1.conj().T) / 2
    elif kind == "extra":
        # empty states among the conduction states, filled ones among the valence states, out of reach
        # unless the number of bath electrons is fixed anyway
        front = rng.random() < 0.6
        for _ in range(int(rng.choice([1, 2, 9, 9, 14]))):
            new = B.copy()
            h = np.zeros((len(B.h1) + 1,) * 2, dtype=complex)
            filled = rng.random() < ((1 if front else 0.8) if B.nv else (0 if front else 0.2))
            pos = 10 + (rng.integers(0, B.nv + 1) if filled else rng.integers(B.nv, B.nb + 1))
            if front:
                pos = 10 if filled else 10 + B.nv
            keep = [i for i in range(len(h)) if i != pos]
            h[np.ix_(keep, keep)] = B.h1
            h[pos, pos] = rng.normal() * 5
            if filled and B.dv:
                h[pos, pos] -= 150
            if not filled and B.dc_:
                h[pos, pos] += 150
            new.h1, new.nb = h, B.nb + 1
            new.nv += bool(filled)
            if sizes(new) > 350:
                break
            B = new
            x += h[pos, pos].real * bool(filled)
    elif kind == "phase":
        phase = lambda: [np.exp(1j * rng.uniform(0.3, 6)), -1, 1j, -1j, 1][rng.integers(5)]
        B.psi_phase, B.op_phase = phase(), phase()
    elif kind == "gauge":
        z = {}

        def gauge(lab):
            for x in lab:
                z.setdefault(x, np.exp(1j * rng.uniform(0, 6.28)))
            return z

        B.gauge = gauge
    elif kind == "order":
        B.order = [2, 1]
    elif kind == "spin":
        B.h = np.linalg.qr(rng.normal(size=(3, 3)))[0] @ B.h
    elif kind == "cubic":
        R = GROUP[c["seed"] % 48]
        B.h = np.linalg.det(R).round() * (R @ B.h)
        eB, oB, qB = [list(R @ np.array(v)) for v in eps], [list(R @ np.array(v)) for v in epsout], R @ q
    elif kind == "reverse":
        B.h = -B.h
        eB, oB = [list(np.conj(v)) for v in eps], [list(np.conj(v)) for v in epsout]
    elif kind == "isotropy":
        if probe == "XAS":
            eps = [list(map(float, v)) for v in np.eye(3)] + [list(np.array(eps[0]) / np.linalg.norm(eps[0]))]
            eB = eps
        else:
            # the plane wave has no preferred axis among equivalent ones
            qB = GROUP[c["seed"] % 48] @ q
            R = GROUP[c["seed"] % 48]
            eB, oB = [list(R @ np.array(v)) for v in eps], [list(R @ np.array(v)) for v in epsout]
    a = calculate(ctx, A, c, None, eps, epsout, q, w, wL, probe)
    if kind == "isotropy" and probe == "XAS":
        b = a
        for i in range(1, len(eps)):
            close(ctx, a["XAS"][i], a["XAS"][0], "absorption of polarization %s compared with x" % (eps[i],), 1e-5)
    else:
        B.wIn, B.delta = A.wIn, A.delta
        b = calculate(ctx, B, c, a["k"], eB, oB, qB, wB, wL, probe)
    shift = x * (6 + A.nd + A.nv) if kind == "shift" else x
    norm = 1e-9 * max(1, np.abs(a["E"]).max(), np.abs(b["E"]).max())
    ctx.close(b["E"], a["E"] + shift, "%s: energies" % kind, 0, norm * 10)
    if "static" in a and "static" in b:
        ctx.close(b["static"], a["static"], "%s: averages of N, N(eg), N(t2g), L^2, S^2, N(3d)" % kind, 1e-6, 1e-6)
    alive = 0
    for k in ("XAS", "IPS", "PS", "XPS", "NIXS", "RIXS"):
        if k in a:
            alive = max(alive, close(ctx, b[k], a[k], "%s: %s" % (kind, k), 2e-3 if k == "RIXS" else 1e-5))
    ctx.nontrivial(alive > 1e-3)
    ctx.label(kind)
    ctx.label(probe)
    if nb:
        ctx.label("bath")


SUBS = [
    Sub("linear", lambda t: case(["XAS", "XAS", "PS", "XPS", "NIXS"]), check, 130, shards=6, thorough=1500),
    Sub("rixs", lambda t: case(["RIXS"]), check, 30, shards=2, thorough=300),
]
