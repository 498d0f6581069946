"""P23 Results do not depend on the number of MPI ranks."""

import shutil

import numpy as np
from hypothesis import strategies as st

from checks import p19, p22, p24, p25
from lib import gens, mpitasks, realmpi, ref, systems
from lib.harness import Sub

PROP = "P23"
RULE = (
    "Calculations (Hamiltonian matrices in every mode, eigenstates, histories of basis expansions, Green's functions, spectra and RIXS maps "
    "in every parallelization mode, and eigenstates followed by spectra and thermal averages), a number of ranks (2-12) and the timing of "
    "messages are drawn; all ranks run in a simulated MPI that detects deadlocks and mismatching calls, and the values on the root (on "
    "every rank where results are distributed) are compared with those of a single rank. Non-trivial: the result is not zero and more than "
    "one rank has work to do."
)
ASSUMPTIONS = [
    "the simulated MPI of lib/fakempi.py; processes with different hash seeds",
    "all ranks have the same processor and libraries (the diagonalization is repeated on every rank)",
    "the Green's functions of mode H_build are only available on the root rank",
    "sizes and broadenings as in P19 and P22",
]


@st.composite
def ranked(draw, inner):
    c = dict(draw(inner))
    c["size"] = draw(st.sampled_from([2, 3, 4, 2, 3, 4, 2, 3, 5, 6, 7, 8, 9, 12]))
    c["timing"] = draw(p24.timing())
    return c


def start(ctx, case):
    s = p19.setup(ctx, case)
    if s is None:
        ctx.label("no Hamiltonian")
        return None
    return s


RANKS = p24.simulate  # what runs a calculation on several ranks


def both(ctx, function, payload, case):
    """(single-rank result, results of the ranks)"""
    one = ctx.call(getattr(mpitasks, function), payload)
    out = ctx.stdout
    many = RANKS(ctx, function, payload, case)
    ctx.stdout = out
    ctx.label("%d ranks" % case["size"])
    return one, many


# -- matrices and eigenstates ----------------------------------------------


@st.composite
def matrix_case(draw):
    c = draw(systems.system(hi=12))
    c["extra"] = draw(gens.masks(c["n"], 1, 4))
    c["perm"] = draw(st.integers(0, 10**6))
    c["modes"] = draw(st.permutations(["dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"]))[: draw(st.integers(1, 3))]
    c["k"] = draw(st.integers(1, 6))
    c["diag"] = draw(st.sampled_from(["Lanczos", "full"]))
    return c


def the_basis(case, op, r, pool, limit=60):
    d = systems.dense(op, pool, r, limit)
    if d is None:
        return None
    basis = list(dict.fromkeys(d[1] + case.get("extra", [])))
    rnd = np.random.RandomState(case["perm"] % 2**31)
    return [basis[i] for i in rnd.permutation(len(basis))]


def check_matrix(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    basis = the_basis(case, op, r, pool)
    if basis is None:
        ctx.exclude("connected set too big")
        return
    p = {"n": n, "op": op, "basis": tuple(ref.enc(m, n) for m in basis), "modes": case["modes"]}
    one, many = both(ctx, "matrix", p, case)
    ctx.nontrivial(len(basis) > 1 and np.abs(one[0]).max() > 0)
    if case["size"] > len(basis):
        ctx.label("more ranks than product states")
    for i, mode in enumerate(case["modes"]):
        for k, x in enumerate(many):
            ctx.close(x[i], one[i], "matrix (%s) on rank %d of %d" % (mode, k, case["size"]), 1e-12, 1e-12)


def check_eigen(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    basis = the_basis(case, op, r, pool, 40)
    if basis is None:
        ctx.exclude("connected set too big")
        return
    ev = np.linalg.eigvalsh(ref.matrix(op, basis))
    tol = 1e-5 * max(1.0, np.abs(ev).max())
    if case["diag"] == "Lanczos" and case["k"] < len(basis) - 1 and (np.abs(ev).max() < 1e-6 or np.any(np.diff(ev) < 10 * tol)):
        # the iterative solver does not find all states of degenerate levels (known finding of P11)
        case = dict(case, diag="full")
    p = {"n": n, "op": op, "basis": tuple(ref.enc(m, n) for m in basis), "k": case["k"], "diag": case["diag"]}
    one, many = both(ctx, "eigen", p, case)
    ctx.label(case["diag"])
    ctx.nontrivial(len(basis) > 1 and np.ptp(ev) > 0)
    es, psis = one
    for k, (e, q) in enumerate(many):
        ctx.close(e, es, "energies on rank %d of %d" % (k, case["size"]), 1e-7, tol / 10)
        ctx.check(len(q) == len(psis), "rank %d returns %d states, a single rank %d", k, len(q), len(psis))
        V0 = np.array([ref.vec(ref.psi_in(ctx, x, n), basis) for x in psis]).T
        V = np.array([ref.vec(ref.psi_in(ctx, x, n), basis) for x in q]).T
        # every rank has to hold the same states, since their images are added up later on
        W = np.array([ref.vec(ref.psi_in(ctx, x, n), basis) for x in many[0][1]]).T
        ctx.close(V, W, "states on rank %d and on rank 0" % k, 0, 1e-6)
        i = 0
        while i < len(es):
            j = i
            while j + 1 < len(ev) and ev[j + 1] - ev[j] < tol * 10:
                j += 1
            if j < len(es):  # a complete level
                a, b = V0[:, i : j + 1], V[:, i : j + 1]
                ctx.close(b @ b.conj().T, a @ a.conj().T, "projector on level %d on rank %d" % (i, k), 0, 1e-4)
            i = j + 1


# -- expansions -------------------------------------------------------------


def check_expand(ctx, case):
    s = p24.expand_setup(ctx, case, 150)
    if s is None:
        return
    n, r, op, steps = s
    p = {"n": n, "op": op, "r": r, "mode": "H_build", "steps": [([ref.enc(m, n) for m in b], k) for b, k in steps]}
    one, many = both(ctx, "expand", p, case)
    ctx.nontrivial(len(one[-1]["basis"]) > 1)
    for i, (_, kind) in enumerate(steps):
        b1 = one[i]["basis"]
        for k in range(case["size"]):
            b = many[k][i]["basis"]
            ctx.check(b == many[0][i]["basis"], "step %d: ranks 0 and %d have different bases", i, k)
            ctx.check(len(b) == len(b1) and set(b) == set(b1), "step %d: basis %s on %d ranks, %s on one", i, b, case["size"], b1)
        b = many[0][i]["basis"]
        perm = [b1.index(x) for x in b]
        if kind == "full":
            for k in range(case["size"]):
                ctx.close(many[k][i]["h"], one[i]["h"][np.ix_(perm, perm)], "step %d: matrix on rank %d" % (i, k), 1e-12, 1e-12)
        elif kind == "local":
            ctx.close(
                sum(many[k][i]["h"] for k in range(case["size"])), one[i]["h"][np.ix_(perm, perm)], "step %d: sum of local matrices" % i, 1e-12, 1e-12
            )  # fmt: skip


# -- spectra ----------------------------------------------------------------


def check_green(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    psis = p19.states(case, pool)
    w = systems.points(case["w"])
    need, tol = 0.0, 1e-7
    one = {(): 1.0}
    for psi, e in zip(psis, case["es"]):
        x = p19.reference(ctx, op, psi, e, one, r, w, case["delta"])
        if x is None:
            ctx.exclude("connected set too big")
            return
        need, tol = max(need, x[1]), max(tol, x[2])
    delta = np.sign(case["delta"]) * max(abs(case["delta"]), need)
    p = {"n": n, "op": op, "r": r, "psis": [(e, ref.psi_out(q, n)) for e, q in zip(case["es"], psis)], "w": w, "delta": delta}
    # all of the Krylov space, or a few vectors of it
    p["krylov"] = 150 if case["default_cut"] else 1 + case["pick"][0] % 4
    p["mode"] = "H_build"
    one, many = both(ctx, "green", p, case)
    ctx.nontrivial(len(psis) > 0)
    ctx.close(many[0], one, "Green's function on the root of %d ranks" % case["size"], 1e-7, tol / abs(delta))


def check_spectra(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    psis = p19.states(case, pool)
    ts = [gens.toop(t) for t in case["t"]]
    w = systems.points(case["w"])
    need, tol = 0.0, 1e-7
    for psi, e in zip(psis, case["es"]):
        for t in ts:
            x = p19.reference(ctx, op, psi, e, t, r, w, case["delta"])
            if x is None:
                ctx.exclude("connected set too big")
                return
            need, tol = max(need, x[1]), max(tol, x[2])
    delta = np.sign(case["delta"]) * max(abs(case["delta"]), need)
    p = {"n": n, "op": op, "r": r, "t": ts, "psis": [ref.psi_out(q, n) for q in psis], "es": case["es"], "w": w, "delta": delta, "mode": case["mode"]}
    one, many = both(ctx, "getspectra", p, case)
    ctx.label("mode %s" % case["mode"])
    ctx.nontrivial(np.abs(one).max() > 1e-6)
    scale = max(1.0, np.abs(one).max(), 1 / abs(delta))
    for k in range(case["size"] if case["mode"] == "eigen_states" else 1):
        ctx.close(many[k], one, "spectra (%s) on rank %d of %d" % (case["mode"], k, case["size"]), 1e-7, tol * scale)


def check_rixs(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    psis = p19.states(case, pool)
    tin = [gens.toop(t) for t in case["tin"]]
    tout = [gens.toop(t) for t in case["tout"]]
    es = case["es"]
    wIn, wLoss = np.array(case["wIn"], dtype=float), systems.points(case["wLoss"])
    d1, d2 = case["d1"], case["d2"]
    flat = [p22.entry(op, q, e, ti, to, r, wIn, wLoss, d1, d2, 40) for q, e in zip(psis, es) for ti in tin for to in tout]
    if any(x is None for x in flat):
        ctx.exclude("connected set too big")
        return
    need = max([0] + [0.04 * x["w1"] for x in flat if x["n1"] > 14] + [0.04 * x["w2"] for x in flat if x["n2"] > 14])
    d1, d2 = max(d1, need), max(d2, need)
    p = {"n": n, "op": op, "r": r, "tin": tin, "tout": tout, "psis": [ref.psi_out(q, n) for q in psis], "es": es}
    p.update(wIn=wIn, wLoss=wLoss, d1=d1, d2=d2, mode=case["mode"])
    one, many = both(ctx, "rixs", p, case)
    if "not achieved" in ctx.stdout or "breakdown" in ctx.stdout:
        ctx.exclude("iterative solver did not converge")
        return
    ctx.label("mode %s" % case["mode"])
    ctx.nontrivial(np.abs(one).max() > 1e-6)
    ranks = range(case["size"]) if case["mode"] in ("wIn", "H_build_wIn", None) else [0]
    # A different rounding can change the number of iterations: twice the tolerance of the solver.
    b = np.array([x["bound"] for x in (p22.entry(op, q, e, ti, to, r, wIn, wLoss, d1, d2, 40) for q, e in zip(psis, es) for ti in tin for to in tout)])
    b = 2 * b.reshape(len(es), len(tin), len(tout), len(wIn), 1) + 1e-12
    for k in ranks:
        x = ctx.array(many[k], one.shape, "RIXS map on rank %d" % k)
        err = np.abs(x - one)
        ctx.check(
            np.all(err <= b), "RIXS map (%s) on rank %d of %d deviates by %.3g from that of one rank (largest value %.3g)",
            case["mode"], k, case["size"], err.max(), np.abs(one).max(),
        )  # fmt: skip


# -- eigenstates, spectra and thermal average -------------------------------


@st.composite
def pipeline_case(draw):
    c = draw(p19.case())
    c["perm"] = draw(st.integers(0, 10**6))
    c["k"] = draw(st.integers(1, 6))
    c["diag"] = draw(st.sampled_from(["Lanczos", "full"]))
    c["T"] = draw(st.sampled_from([1, 50, 300, 3000, 20000]))
    return c


def check_pipeline(ctx, case):
    s = start(ctx, case)
    if s is None:
        return
    n, r, op, pool = s
    basis = the_basis(case, op, r, pool, 40)
    if basis is None:
        ctx.exclude("connected set too big")
        return
    H = ref.matrix(op, basis)
    ev, U = np.linalg.eigh(H)
    tol = 1e-5 * max(1.0, np.abs(ev).max())
    k = min(case["k"], len(basis))
    while k < len(ev) and ev[k] - ev[k - 1] < 10 * tol:  # complete levels only
        k += 1
    iterative = case["diag"] == "Lanczos" and k < len(basis) - 1
    if iterative and (np.abs(ev).max() < 1e-6 or np.any(np.diff(ev) < 10 * tol)):
        case = dict(case, diag="full")
    ts = [gens.toop(t) for t in case["t"]]
    w = systems.points(case["w"])
    need = 0.0
    for i in range(k):
        psi = {m: a for m, a in zip(basis, U[:, i]) if abs(a) > 1e-9}
        for t in ts:
            x = p19.reference(ctx, op, psi, ev[i], t, r, w, case["delta"])
            if x is None:
                ctx.exclude("connected set too big")
                return
            need = max(need, x[1])
    delta = np.sign(case["delta"]) * max(abs(case["delta"]), need, 0.2)
    p = {"n": n, "op": op, "r": r, "t": ts, "basis": tuple(ref.enc(m, n) for m in basis), "k": k, "diag": case["diag"]}
    p.update(w=w, delta=delta, mode=case["mode"], T=case["T"])
    one, many = both(ctx, "pipeline", p, case)
    ctx.label("mode %s" % case["mode"])
    ctx.label(case["diag"])
    a = one[2]
    scale = max(1.0, np.abs(one[1]).max(), 1 / abs(delta))
    ctx.nontrivial(np.abs(a).max() > 1e-6 * scale)
    for j in range(case["size"] if case["mode"] == "eigen_states" else 1):
        ctx.close(many[j][0], one[0], "energies on rank %d" % j, 1e-7, tol / 10)
        # eigenstates below 1e-7 in weight are cut, energies shift the Boltzmann weights
        ctx.close(many[j][2], a, "thermally averaged spectra on rank %d of %d" % (j, case["size"]), 1e-3, 3e-3 * scale)


# -- whole simulations --------------------------------------------------------


def check_simulate(ctx, case):
    x = p25.prepare(ctx, case)
    if x is None:
        return
    args, want = x
    d = p25.scratch("p23")
    try:
        one, many = both(ctx, "simulate", {"args": args, "cwd": d}, case)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, (_, files) in enumerate(many[1:]):
        ctx.check(not files, "rank %d writes %s", k + 1, sorted(files))
    ctx.check(sorted(many[0][1]) == sorted(one[1]), "files %s on %d ranks, %s on one", sorted(many[0][1]), case["size"], sorted(one[1]))
    a, b = p25.read(ctx, one[1]), p25.read(ctx, many[0][1])
    if "not achieved" in ctx.stdout or "breakdown" in ctx.stdout:
        ctx.exclude("iterative solver did not converge")
        return
    ctx.nontrivial(sum(np.abs(a[0][k]).max() > 1e-4 for k in p25.NAMES) > 2)
    for k in p25.NAMES:
        bound = 2 * want[k][1] + 1e-9
        err = np.abs(ctx.array(b[0][k], a[0][k].shape, "%s on %d ranks" % (k, case["size"])) - a[0][k])
        ctx.check(np.all(err <= bound), "%s on %d ranks deviates by %.3g from that on one (largest value %.3g)", k, case["size"], err.max(), np.abs(a[0][k]).max())
        err = np.abs(ctx.array(b[0][k + "thermal"], a[0][k + "thermal"].shape, k + "thermal") - a[0][k + "thermal"])
        ctx.check(np.all(err <= bound.max()), "%sthermal on %d ranks deviates by %.3g from that on one", k, case["size"], err.max())
        tol = 1.1e-4 + bound.max() * max(want[k][0].shape[1:3])
        if k == "RIXS":
            ctx.close(b[2], a[2], "RIXS.bin on %d ranks" % case["size"], 1e-5, tol * max(1, want[k][0].shape[1]))
        else:
            x, y = ([[float(v) for v in line.split()] for line in z[1][k].splitlines() if not line.startswith("#")] for z in (a, b))
            ctx.close(y, x, "%s.dat on %d ranks" % (k, case["size"]), 1e-6, tol * (1 if k == "RIXS" else len(x[0])))


# -- the real MPI library (thorough tier): many calculations in one job --------


class Collected(BaseException):
    pass


def check_mpirun(ctx, case):
    global RANKS
    if not realmpi.available():
        ctx.exclude("mpirun does not work here")
        return
    todo, calls = [], []

    def collect(ctx, function, payload, c):
        calls.append((function, payload))
        raise Collected()

    sub = {s.name: s for s in SUBS}
    try:
        RANKS = collect
        for name, c in case["jobs"]:
            c = dict(c, size=case["size"])
            try:
                sub[name].check(ctx, c)
            except Collected:
                todo.append((name, c))
        if not calls:
            return
        rc, out = realmpi.run(case["size"], calls, 60 + 10 * len(calls))
        for (name, c), (function, payload), x in zip(todo, calls, out):
            ctx.check(all(ok for ok, _ in x), "%s on %d ranks: %s", function, case["size"], [v for ok, v in x if not ok])
            ctx.check(len(x) == case["size"], "%s on %d ranks: %d ranks give a result within the time limit (mpirun: %s)", function, case["size"], len(x), rc)
            RANKS = lambda ctx, f, p, c: [v for _, v in x]
            sub[name].check(ctx, c)
            ctx.label("mpirun " + name)
        ctx.check(rc == 0, "mpirun ends with %s", rc)
    finally:
        RANKS = p24.simulate


@st.composite
def mpirun_case(draw):
    gen = {"matrix": matrix_case, "eigen": matrix_case, "expand": p24.expand_case, "green": p19.case, "spectra": p19.case, "rixs": p22.case, "pipeline": pipeline_case}
    jobs = []
    for _ in range(draw(st.integers(10, 25))):
        name = draw(st.sampled_from(sorted(gen)))
        jobs.append([name, draw(gen[name]())])
    return {"size": draw(st.sampled_from([2, 3, 5])), "jobs": jobs}


SUBS = [
    Sub("matrix", lambda t: ranked(matrix_case()), check_matrix, 140, setup=p24.setup),
    Sub("eigen", lambda t: ranked(matrix_case()), check_eigen, 100, setup=p24.setup),
    Sub("expand", lambda t: ranked(p24.expand_case()), check_expand, 140, setup=p24.setup),
    Sub("green", lambda t: ranked(p19.case()), check_green, 110, setup=p24.setup),
    Sub("spectra", lambda t: ranked(p19.case()), check_spectra, 140, shards=2, setup=p24.setup),
    Sub("rixs", lambda t: ranked(p22.case()), check_rixs, 120, shards=2, setup=p24.setup),
    Sub("simulate", lambda t: ranked(p25.case()), check_simulate, 60, shards=2, setup=p24.setup),
    Sub("pipeline", lambda t: ranked(pipeline_case()), check_pipeline, 110, shards=2, setup=p24.setup),
    Sub("mpirun", lambda t: mpirun_case(), check_mpirun, 0, thorough=40, cpu=900),
]
