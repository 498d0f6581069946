"""P14 Crystal-field parameters define the intended Hamiltonian."""

import json
import os

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P14"
RULE = (
    "Parameter files with drawn values for a drawn subset of the ten parameters (plus unknown extra keys) are written to scratch files and "
    "read back for 10 or 20 bath states and both bath bases; the operator is compared as a matrix with projectors on the e_g and t2g "
    "functions obtained by quadrature. Non-trivial: at least three parameters given, at least one left to its default, e_g differs from t2g."
)
ASSUMPTIONS = ["the number of d bath states is 10 (valence only) or 20, of which 10 are valence, as the drivers demand"]

DEFAULT = {
    "e_imp": -1.31796,
    "e_deltaO_imp": 0.60422,
    "e_val_eg": -4.4,
    "e_val_t2g": -6.5,
    "e_con_eg": 3,
    "e_con_t2g": 2,
    "v_val_eg": 1.883,
    "v_val_t2g": 1.395,
    "v_con_eg": 0.6,
    "v_con_t2g": 0.4,
}


@st.composite
def case(draw):
    keys = draw(st.lists(st.sampled_from(sorted(DEFAULT)), unique=True, max_size=10))
    val = st.one_of(gens.rnumbers(), gens.rnumbers(), gens.reals(9.0), st.just(0))
    p = {k: draw(val) for k in keys}
    if draw(st.integers(0, 3)) == 0:
        # some of the parameters much weaker or stronger than usual
        f = draw(st.sampled_from([1e-9, 1e-7, 1e-5, 1e-3, 1e3]))
        p.update((k, draw(st.one_of(gens.reals(9.0), st.just(0))) * f) for k in DEFAULT if draw(st.booleans()))
    if draw(st.integers(0, 5)) == 0:
        p["comment"] = 7.5
    return {
        "swap": draw(st.booleans()),
        "p": p,
        "con": draw(st.booleans()),
        "basis": draw(st.sampled_from(["spherical", "cubic", "spherical", "cubic", None])),
        "pshell": draw(st.sampled_from(["p-first", "p-first", "d-only", "d-first"])),
    }


def reference(q, con):
    """Blocks in the spherical basis."""
    eg, tg = ref.P_EG, ref.P_T2G
    imp = (q["e_imp"] + 0.6 * q["e_deltaO_imp"]) * eg + (q["e_imp"] - 0.4 * q["e_deltaO_imp"]) * tg
    val = q["e_val_eg"] * eg + q["e_val_t2g"] * tg
    vval = q["v_val_eg"] * eg + q["v_val_t2g"] * tg
    c = q["e_con_eg"] * eg + q["e_con_t2g"] * tg
    vc = q["v_con_eg"] * eg + q["v_con_t2g"] * tg
    return imp, [(val, vval)] + ([(c, vc)] if con else [])


def write(name, obj):
    path = os.path.join(os.environ["VERIF_SCRATCH"], name)
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def check(ctx, case):
    from impurityModel.ed import get_spectra_using_CF as cf

    q = dict(DEFAULT)
    q.update({k: v for k, v in case["p"].items() if k in DEFAULT})
    con = case["con"]
    ctx.nontrivial(3 <= len(case["p"]) < 10 and abs(q["e_deltaO_imp"]) > 1e-3 and q["v_val_eg"] != q["v_val_t2g"])
    ctx.label("%s %s bath" % (case["basis"], 20 if con else 10))
    path = write("cf.json", case["p"])
    got = ctx.call(cf.read_h0_CF_file, path)
    order = ["e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g"]
    ctx.close(got, [q[k] for k in order], "read_h0_CF_file %s" % order, 0, 1e-14)
    nBaths = {"p-first": {1: 0, 2: 20 if con else 10}, "d-only": {2: 20 if con else 10}, "d-first": {2: 20 if con else 10, 1: 0}}[case["pshell"]]
    nVal = {l: min(nb, 10) for l, nb in nBaths.items()}
    if case.get("swap"):
        nVal = dict(reversed(nVal.items()))
    args = (nBaths, nVal, path) + (() if case["basis"] is None else (case["basis"],))
    op = ctx.call(cf.get_CF_hamiltonian, *args)
    labels = ref.shell_labels(2) + [(2, b) for b in range(20 if con else 10)]
    ref.check_op(ctx, op, "get_CF_hamiltonian", set(labels))
    index = {x: i for i, x in enumerate(labels)}
    for p, v in op.items():
        ctx.check(len(p) == 2 and p[0][1] == "c" and p[1][1] == "a", "not a one-particle process: %s", p)
        r = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        ctx.check(r in op and op[r] == np.conj(v), "not exactly Hermitian: %s: %r, %r", p, v, op.get(r))
    M = np.zeros((len(labels), len(labels)), dtype=complex)
    for p, v in op.items():
        M[index[p[0][0]], index[p[1][0]]] += v
    with open(path) as f:
        ctx.check(json.load(f) == case["p"], "parameter file changed")
    imp, baths = reference(q, con)
    # rounding is relative to the parameters of a block
    tol = 1e-11
    big = lambda *ks: tol * max(abs(q[k]) for k in ks)
    used = np.zeros(M.shape, dtype=bool)

    def block(a, b):
        used[a : a + 5, b : b + 5] = True
        return M[a : a + 5, b : b + 5]

    cubic = case["basis"] == "cubic"
    for s in range(2):
        i0 = 5 * s
        ctx.close(block(i0, i0), imp, "impurity block, spin %d" % s, 0, big("e_imp", "e_deltaO_imp"))
        for k, (e, v) in enumerate(baths):
            b0 = 10 + 10 * k + 5 * s
            E, V, W = block(b0, b0), block(b0, i0), block(i0, b0)
            d = ["e_val_eg", "e_val_t2g"] if k == 0 else ["e_con_eg", "e_con_t2g"]
            h = ["v_val_eg", "v_val_t2g"] if k == 0 else ["v_con_eg", "v_con_t2g"]
            te, tv, hmax = big(*d), big(*h), max(abs(q[x]) for x in h)
            ctx.close(W, V.conj().T, "hopping adjoint", 0, tv)
            if not cubic:
                ctx.close(E, e, "bath block %d, spin %d" % (k, s), 0, te)
                ctx.close(V, v, "hopping block %d, spin %d" % (k, s), 0, tv)
            else:
                ctx.close(E, np.diag([q[d[0]]] * 2 + [q[d[1]]] * 3), "bath block %d (cubic), spin %d" % (k, s), 0, te)
                ctx.close(V @ V.conj().T, np.diag([q[h[0]] ** 2] * 2 + [q[h[1]] ** 2] * 3), "hopping strengths (cubic)", 0, tv * hmax)
                ctx.close(V.conj().T @ V, v @ v, "hopping block %d (cubic), spin %d" % (k, s), 0, tv * hmax)
                # real cubic functions with the sign of the parameter, up to one common sign per function
                ctx.close(V.conj().T @ E @ V, v @ e @ v, "bath energy seen by the impurity (cubic)", 0, te * hmax**2)
    ctx.check(np.abs(M[~used]).max() <= 1e-14 * max(abs(v) for v in q.values()), "terms that should not exist (spin mixing, wrong bath)")
    # eigenvalues do not depend on the bath basis
    R = np.zeros(M.shape, dtype=complex)
    for s in range(2):
        i0 = 5 * s
        R[i0 : i0 + 5, i0 : i0 + 5] = imp
        for k, (e, v) in enumerate(baths):
            b0 = 10 + 10 * k + 5 * s
            R[b0 : b0 + 5, b0 : b0 + 5] = e
            R[b0 : b0 + 5, i0 : i0 + 5] = v
            R[i0 : i0 + 5, b0 : b0 + 5] = v.conj().T
    ctx.close(np.linalg.eigvalsh(M), np.linalg.eigvalsh(R), "eigenvalues", 0, 1e-11 * max(1e-300, np.abs(R).max()))


def check_bad(ctx, case):
    from impurityModel.ed import get_spectra_using_CF as cf

    ctx.nontrivial()
    path = write("cf.json", {})
    ctx.raises(cf.get_CF_hamiltonian, {1: 0, 2: 10}, {1: 0, 2: 10}, path, case["basis"])


SUBS = [
    Sub("cf", lambda t: case(), check, 700, shards=4),
    Sub("unknown-basis", lambda t: st.fixed_dictionaries({"basis": st.sampled_from(["Cubic", "", "real", "spherical harmonics"])}), check_bad, 8),
]
