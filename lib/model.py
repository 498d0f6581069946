"""Exact many-body response of an operator, by connected components (dense linear algebra on the reference model)."""

import numpy as np

from lib import ref


class TooBig(Exception):
    pass


class Model:
    def __init__(self, op, restrictions=None, limit=300):
        self.op, self.r, self.limit = op, restrictions, limit
        self.where = {}  # mask -> (component, position)
        self.comps = []  # [energies, vectors, basis]

    def component(self, m):
        if m not in self.where:
            seen = {m: ref.apply(self.op, {m: 1}, self.r)}
            front = [m]
            while front:
                new = []
                for x in front:
                    for k in ref.touched(self.op, {x: 1}, self.r):
                        if k not in seen:
                            if len(seen) >= self.limit:
                                raise TooBig()
                            seen[k] = ref.apply(self.op, {k: 1}, self.r)
                            new.append(k)
                front = new
            basis = sorted(seen)
            pos = {k: i for i, k in enumerate(basis)}
            H = np.zeros((len(basis), len(basis)), dtype=complex)
            for k in basis:
                for q, v in seen[k].items():
                    H[pos[q], pos[k]] = v
            E, U = np.linalg.eigh((H + H.conj().T) / 2)
            c = len(self.comps)
            self.comps.append((E, U, basis))
            for k, i in pos.items():
                self.where[k] = (c, i)
        return self.where[m]

    def project(self, psi):
        """list of (energies, vectors, coefficients in the eigenbasis) of the components that psi touches."""
        vecs = {}
        for m, a in psi.items():
            c, i = self.component(m)
            if c not in vecs:
                vecs[c] = np.zeros(len(self.comps[c][0]), dtype=complex)
            vecs[c][i] += a
        return [(c, self.comps[c][1].conj().T @ v) for c, v in vecs.items()]

    def resolvent(self, psi, zs):
        out = np.zeros(len(zs), dtype=complex)
        for c, x in self.project(psi):
            out += (np.abs(x[None, :]) ** 2 / (np.asarray(zs)[:, None] - self.comps[c][0][None, :])).sum(axis=1)
        return out

    def solve(self, psi, z):
        """(z - H)^-1 psi"""
        out = {}
        for c, x in self.project(psi):
            E, U, basis = self.comps[c]
            for m, a in zip(basis, U @ (x / (z - E))):
                out[m] = a
        return out

    def extent(self, psi):
        """(number of connected product states, width of their spectrum)"""
        comps = {self.component(m)[0] for m in psi}
        if not comps:
            return 0, 0.0
        E = np.concatenate([self.comps[c][0] for c in comps])
        return len(E), float(np.ptp(E))


def norm(psi):
    return float(np.sqrt(sum(abs(a) ** 2 for a in psi.values())))


def transition(t, psi, r, cut=1e-7):
    """(t|psi>, largest norm of what a weight cutoff can remove from it)"""
    phi = {m: a for m, a in ref.apply(t, psi, r).items() if abs(a) > 1e-13}
    lost = {m: abs(a) for m, a in phi.items() if abs(a) ** 2 < 1.5 * cut}
    for s, a in psi.items():
        for m, b in ref.apply(t, {s: 1}, r).items():
            if 0 < abs(b) ** 2 < 1.1 * cut:
                lost[m] = lost.get(m, 0) + abs(a * b)
    return phi, norm(lost)
