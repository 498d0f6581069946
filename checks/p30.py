"""P30 The shipped examples simulate the materials they name."""

import glob
import json
import os
import pickle
import re
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from checks import p14, p26
from lib import driver, gens, ref
from lib.harness import REPO, Sub

PROP = "P30"
RULE = (
    "The example scripts are executed with drawn documented arguments, from drawn places and in drawn ways, with a stand-in for mpirun/mpiexec "
    "that records the command. The command is decoded independently and compared with the material, the arguments and the input files. "
    "env.sh is sourced from drawn places beside a copy of the package. In the second part the recorded command, with drawn further options appended, is run up to the spectra stage and decided by the "
    "reference of P26 (Hamiltonian as a sum of reference terms, restrictions, eigenstates by residuals). "
    "Non-trivial: an argument is given, or the program is run with at least two further options."
)
ASSUMPTIONS = [
    "the parallel launcher (mpirun, mpiexec) is replaced by a stand-in that records its arguments",
    "simulations of more than 600 (thorough: 1500) product states are reduced by --dnTols, --dnValBaths, --dnConBaths before they are run",
]
ION = {"Mn": 5, "Fe": 6, "Co": 7, "Ni": 8}
# degeneracy of the ground multiplet of d^n in a weak cubic field (without spin-orbit coupling)
GROUND = {5: 6, 6: 15, 7: 12, 8: 3}
# atomic parameters of the divalent ions (2p^5 3d^(n+1) configurations): Fdd, Fpd, Gpd, xi_2p, xi_3d
ATOM = {
    "Mn": ([6, 0, 9.0, 0, 6.1], [7.5, 0, 5.6], [0, 4, 0, 2.3], 6.936, 0.051),
    "Fe": ([6.5, 0, 9.3, 0, 6.2], [7.5, 0, 6], [0, 4.3, 0, 2.4], 8.301, 0.064),
    "Co": ([7, 0, 9.6, 0, 6.4], [8, 0, 6.4], [0, 4.6, 0, 2.6], 9.859, 0.079),
    "Ni": ([7.5, 0, 9.9, 0, 6.6], [8.9, 0, 6.8], [0, 5, 0, 2.8], 11.629, 0.096),
}
# script: (ion, program, bath states or None (first argument), position of the argument with the number of ranks or None)
SCRIPTS = {
    "run_Ni_NiO_Xbath.sh": ("Ni", "get_spectra", None, 1),
    "run_Ni_NiO_50p10bath.sh": ("Ni", "get_spectra", 60, 0),
    "run_Ni_NiO_CF.sh": ("Ni", "get_spectra_using_CF", 10, None),
    "run_Co_CoO_CF.sh": ("Co", "get_spectra_using_CF", 10, None),
    "run_Fe_FeO_CF.sh": ("Fe", "get_spectra_using_CF", 10, None),
    "run_Mn_MnO_CF.sh": ("Mn", "get_spectra_using_CF", 10, None),
}
LAUNCHER = '#!/bin/bash\nprintf "%%s\\0" "${0##*/}" "$@" > "%s"\nexit %d\n'


@st.composite
def command_case(draw):
    s = draw(st.sampled_from(sorted(SCRIPTS) + ["run_Ni_NiO_Xbath.sh"] * 4 + ["run_Ni_NiO_50p10bath.sh"]))
    args = []
    ranks = st.one_of(st.integers(1, 8), st.integers(1, 128)).map(str)
    if s == "run_Ni_NiO_Xbath.sh":
        args = draw(st.sampled_from([[], ["n"], ["n", "r"], ["n", "r"], ["", "r"]]))
    elif SCRIPTS[s][3] == 0:
        args = draw(st.sampled_from([[], ["r"], ["r"]]))
    args = [draw(st.sampled_from(["10", "20", "50", "100", "300"])) if a == "n" else draw(ranks) if a == "r" else a for a in args]
    return {
        "script": s,
        "args": args,
        "how": draw(st.sampled_from(["exec", "bash", "relative", "copy", "chdir", "spaces"])),
        "status": draw(st.sampled_from([0, 0, 0, 1, 7])),
    }


def record(ctx, c, d):
    """Executes the script -> (launcher, ranks, module, positional arguments, options, folder of the data)"""
    root = REPO
    if c["how"] in ("copy", "spaces"):
        root = os.path.join(d, "elsewhere" if c["how"] == "copy" else "some where * else")
        for x in ("scripts", "h0", "radialOrbitals"):
            os.makedirs(os.path.join(root, x))
            for f in glob.glob(os.path.join(REPO, x, "*")):
                if x == "scripts":
                    shutil.copy2(f, os.path.join(root, x))
                else:
                    os.symlink(f, os.path.join(root, x, os.path.basename(f)))
    script = os.path.join(root, "scripts", c["script"])
    ctx.check(os.path.isfile(script), "%s does not exist", c["script"])
    b, out, cwd = os.path.join(d, "bin"), os.path.join(d, "command"), os.path.join(d, "work")
    os.makedirs(b)
    os.makedirs(cwd)
    for x in ("mpirun", "mpiexec", "mpirun.openmpi", "mpiexec.openmpi", "orterun", "srun"):
        with open(os.path.join(b, x), "w") as f:
            f.write(LAUNCHER % (out, c["status"]))
        os.chmod(os.path.join(b, x), 0o755)
    if c["how"] == "chdir":
        cwd = os.path.join(root, "scripts")
        cmd = ["./" + c["script"]]
    else:
        cmd = [os.path.relpath(script, cwd) if c["how"] == "relative" else script]
    if c["how"] == "bash":
        cmd = ["bash"] + cmd
    else:
        ctx.check(os.access(script, os.X_OK), "%s is not executable", c["script"])
    env = {"PATH": b + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d}
    ctx.sut_calls += 1
    p = subprocess.run(cmd + c["args"], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    ctx.check(os.path.isfile(out), "%s %s starts no simulation: exit status %d, %.300s", c["script"], c["args"], p.returncode, p.stdout)
    ctx.check((p.returncode == 0) == (c["status"] == 0), "the simulation ended with status %d, %s with %d", c["status"], c["script"], p.returncode)
    with open(out) as f:
        words = f.read().split("\0")[:-1]
    try:
        i = next(i for i, x in enumerate(words) if re.match(r"python3?$", os.path.basename(x)))
        head, tail = words[1:i], words[i + 1 :]
        tail = [x for x in tail if x not in ("-u", "-O")]
        ranks = int(next(head[j + 1] for j, x in enumerate(head) if x in ("-n", "-np", "--n", "-c")))
        if tail[0] == "-m":
            module, rest = tail[1], tail[2:]
        else:
            module, rest = os.path.splitext(os.path.basename(tail[0]))[0], tail[1:]
    except (StopIteration, IndexError, ValueError):
        ctx.fail("%s: command not understood: %s" % (c["script"], words))
    files, opt = [], {}
    name = None
    for x in rest:
        if x.startswith("--"):
            name, _, v = x[2:].partition("=")
            opt[name] = [v] if v else []
        elif name is None or (name in opt and name in p26.DEFAULT and not isinstance(p26.DEFAULT[name], list) and len(opt[name])):
            files.append(x)
        else:
            opt[name].append(x)
    for k, v in opt.items():
        ctx.check(k in p26.DEFAULT, "unknown option --%s in %s", k, c["script"])
        opt[k] = [float(x) if "." in x or "e" in x else int(x) for x in v]
        if not isinstance(p26.DEFAULT[k], list):
            ctx.check(len(v) == 1, "%d values for --%s", len(v), k)
            opt[k] = opt[k][0]
    ctx.check(not os.listdir(os.path.join(d, "work")), "%s leaves files behind", c["script"])
    files = [f if os.path.isabs(f) else os.path.join(cwd, f) for f in files]
    return ranks, module, files, opt, root


def inputs(ctx, o, files):
    """The non-interacting Hamiltonian (reference, labels) and the radial function of the shipped files."""
    if files[0].endswith(".pickle"):
        with open(files[0], "rb") as f:
            h0 = pickle.load(f)
        h0 = {p: complex(v) for p, v in h0.items()}
    else:
        with open(files[0]) as f:
            par = json.load(f)
        ctx.check(set(par) <= set(p14.DEFAULT), "unknown crystal-field parameters %s in %s", set(par) - set(p14.DEFAULT), files[0])
        h0 = p26.crystal({"cf": par}, o)
    return h0, np.loadtxt(files[1]).T


def physical(ctx, c, o, ion, h0, table):
    """The input data belong together and describe a cubic oxide of the ion."""
    n0 = ION[ion]
    nb, nv = o["nBaths"][o["ls"].index(2)], o["nValBaths"][o["ls"].index(2)]
    labels = ref.layout(dict(zip(o["ls"], o["nBaths"])))
    mine = {x for p in h0 for x, _ in p}
    ctx.check(mine <= set(labels), "%s: the Hamiltonian has the states %s, which the bath layout does not have", c["script"], sorted(mine - set(labels), key=str)[:4])
    bath = [(2, i) for i in range(nb)]
    ctx.check(set(bath) <= mine, "%s: %d bath states requested, the Hamiltonian file has %d", c["script"], nb, len([x for x in mine if len(x) == 2]))
    M = np.zeros((10 + nb,) * 2, dtype=complex)
    lab = [(2, s, m) for s in range(2) for m in range(-2, 3)] + bath
    index = {x: i for i, x in enumerate(lab)}
    for p, v in h0.items():
        ctx.check([k for _, k in p] == ["c", "a"], "process %s", p)
        M[index[p[0][0]], index[p[1][0]]] += v
    ctx.close(M, M.conj().T, "%s: Hermiticity of the Hamiltonian" % c["script"], 1e-10, 0)
    filled = [np.real(M[10 + i, 10 + i]) < 0 for i in range(nb)]
    ctx.check(filled == [i < nv for i in range(nb)], "%s: bath states %s of %d have negative energies, but %d are said to be filled", c["script"], [i for i, x in enumerate(filled) if x][-1:], nb, nv)
    # no spin polarization, cubic symmetry
    E = np.linalg.eigvalsh(M)
    ctx.close(M[:5, :5], M[5:10, 5:10], "spin down and spin up part", 1e-6, 0)
    ctx.check(np.abs(M[:5, 5:10]).max() < 1e-8, "spin flips in the non-interacting Hamiltonian")
    e = np.linalg.eigvalsh(M[:5, :5])
    groups = 1 + (np.diff(e) > 5e-2 * np.ptp(e) + 1e-9)[[1, 2]].sum() if np.ptp(e) > 1e-9 else 1
    ctx.check(groups <= 2, "the d levels %s are not those of a cubic crystal field", e)
    ctx.check(np.abs(M[:10, 10:]).sum(axis=0).min() > 1e-6, "bath states without hopping to the impurity")
    ctx.check(np.abs(E).max() < 50, "energies %s", E)
    # the radial function
    r, R = table
    ctx.check(np.all(np.diff(r) >= 0) and r[0] >= 0, "radial mesh not increasing")
    norm = float(np.sum(np.diff(r) * (r[1:] ** 2 * R[1:] ** 2 + r[:-1] ** 2 * R[:-1] ** 2) / 2))
    ctx.check(abs(norm - 1) < 1e-3, "%s: norm of the radial function %r", c["script"], norm)
    mean = float(np.sum(np.diff(r) * (r[1:] ** 3 * R[1:] ** 2 + r[:-1] ** 3 * R[:-1] ** 2) / 2))
    # the 3d shell contracts along the series
    ctx.check(abs(mean - {5: 0.558, 6: 0.538, 7: 0.519, 8: 0.499}[n0]) < 0.008, "%s: mean radius %r of the 3d orbital", c["script"], mean)


def decode(ctx, c, d):
    ion, program, nb, pos = SCRIPTS[c["script"]]
    ranks, module, files, opt, root = record(ctx, c, d)
    given = [x for x in c["args"]]
    if nb is None:
        nb = int(given[0]) if given and given[0] else 10
    want = int(given[pos]) if pos is not None and len(given) > pos and given[pos] else 1
    ctx.check(ranks == want, "%s %s runs on %d ranks", c["script"], given, ranks)
    ctx.check(module.split(".")[-1] == program, "%s runs %s", c["script"], module)
    ctx.check(len(files) == 2, "files %s", files)
    for f in files:
        ctx.check(os.path.isfile(f), "%s %s: %s does not exist", c["script"], given, f)
        ctx.check(os.path.realpath(os.path.dirname(os.path.dirname(f))) == os.path.realpath(root), "%s is not part of the repository of the script", f)
    name = "h0_%sO_" % ion + ("CF.json" if program.endswith("CF") else {60: "50p10"}.get(nb, str(nb)) + "bath.pickle")
    ctx.check(os.path.basename(files[0]) == name, "%s %s reads %s, expected %s", c["script"], given, files[0], name)
    ctx.check(os.path.basename(files[1]) == ion + "3d.dat", "%s reads %s", c["script"], files[1])
    o = dict(p26.DEFAULT)
    o.update(opt)
    ctx.check(o["ls"] == [1, 2] and o["nBaths"] == [0, nb] and o["nValBaths"][0] == 0, "bath states %s, filled %s; %s %s", o["nBaths"], o["nValBaths"], c["script"], given)
    ctx.check(o["n0imps"] == [6, ION[ion]], "%s: nominal occupations %s", c["script"], o["n0imps"])
    ctx.check(o["nPsiMax"] > GROUND[ION[ion]], "%s: %d eigenstates, but the ground multiplet has %d", c["script"], o["nPsiMax"], GROUND[ION[ion]])
    for k, v in zip(("Fdd", "Fpd", "Gpd", "xi_2p", "xi_3d"), ATOM[ion]):
        ctx.close(o[k], v, "%s: %s of %s" % (c["script"], k, ion), 1e-9, 0)
    # electrons must be able to use what the Hamiltonian offers
    i = o["ls"].index(2)
    ctx.check(o["dnTols"][i] > 0 and o["dnValBaths"][i] > 0 and o["dnConBaths"][i] == (0 if o["nValBaths"][i] == nb else 1), "%s: deviations %s %s %s", c["script"], o["dnTols"], o["dnValBaths"], o["dnConBaths"])
    return ion, program, files, opt, o


def scratch():
    d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p30_%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def check_command(ctx, c):
    d = scratch()
    try:
        ion, program, files, opt, o = decode(ctx, c, d)
        h0, table = inputs(ctx, o, files)
        physical(ctx, c, o, ion, h0, table)
        ctx.nontrivial(len(c["args"]) > 0)
        ctx.label(c["script"])
        ctx.label(c["how"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- the documentation ------------------------------------------------------


def check_readme(ctx, c):
    with open(os.path.join(REPO, "README.md")) as f:
        text = f.read()
    for x in re.findall(r"[\w/.]*/scripts/(\w+\.sh)", text) + re.findall(r"`(run_\w+\.sh)`", text):
        ctx.check(os.path.isfile(os.path.join(REPO, "scripts", x)), "README.md tells to run %s, which does not exist", x)
        ctx.nontrivial()
    for x in re.findall(r"python3? -m (impurityModel[\w.]+)", text):
        ctx.check(os.path.isfile(os.path.join(REPO, *x.split(".")) + ".py"), "README.md tells to run %s, which does not exist", x)
    for x in glob.glob(os.path.join(REPO, "scripts", "run_*.sh")):
        ctx.label("script " + ("known" if os.path.basename(x) in SCRIPTS else "new"))


# -- the environment --------------------------------------------------------


def env_case():
    return st.fixed_dictionaries({
        "place": st.sampled_from(["repo", "with space", "deep/er"]),
        "cwd": st.sampled_from(["inside", "above", "other", "package"]),
        "how": st.sampled_from(["absolute", "relative", "dot"]),
        "old": st.sampled_from([None, "", "decoy", "nowhere", "both"]),
        "errexit": st.booleans(),
    })  # fmt: skip


def check_env(ctx, c):
    """`source env.sh` activates the environment of the installation and selects the code beside it."""
    d = scratch()
    try:
        root, other = os.path.join(d, *c["place"].split("/")), os.path.join(d, "decoy")
        for x in (root, other):
            for y in ("", "ed"):
                os.makedirs(os.path.join(x, "impurityModel", y), exist_ok=True)
                open(os.path.join(x, "impurityModel", y, "__init__.py"), "w").close()
        ctx.check(os.path.isfile(os.path.join(REPO, "env.sh")), "env.sh does not exist")
        shutil.copy2(os.path.join(REPO, "env.sh"), root)
        home = os.path.join(d, "home")
        os.makedirs(os.path.join(home, "envED", "bin"))
        with open(os.path.join(home, "envED", "bin", "activate"), "w") as f:
            f.write('VIRTUAL_ENV="$HOME/envED"\nexport VIRTUAL_ENV\nPATH="$VIRTUAL_ENV/bin:$PATH"\nexport PATH\n')
        cwd = {"inside": root, "above": os.path.dirname(root), "other": other, "package": os.path.join(root, "impurityModel", "ed")}[c["cwd"]]
        path = os.path.join(root, "env.sh")
        if c["how"] != "absolute":
            path = os.path.relpath(path, cwd)
            path = path if "/" in path else "./" + path
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home, "PYTHONDONTWRITEBYTECODE": "1"}
        if c["old"] is not None:
            env["PYTHONPATH"] = {"": "", "decoy": other, "nowhere": "/nonexistent", "both": other + ":" + root}[c["old"]]
        ctx.nontrivial(c["cwd"] != "inside" or c["old"] is not None)
        ctx.label("from %s" % c["cwd"])
        ctx.sut_calls += 1
        text = '%s%s "$1"; cd /; echo "$VIRTUAL_ENV"; "$2" -c "import impurityModel.ed as m; print(m.__file__)"' % ("set -e; " if c["errexit"] else "", "." if c["how"] == "dot" else "source")
        p = subprocess.run(["bash", "--norc", "-c", text, "bash", path, sys.executable], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        lines = p.stdout.splitlines()
        ctx.check(p.returncode == 0 and len(lines) >= 2, "env.sh fails: status %d, %.300s", p.returncode, p.stderr)
        ctx.check(os.path.realpath(lines[-2]) == os.path.realpath(os.path.join(home, "envED")), "the environment is not activated: %s", lines[-2])
        ctx.check(os.path.realpath(lines[-1]) == os.path.realpath(os.path.join(root, "impurityModel", "ed", "__init__.py")), "env.sh in %s selects the code in %s", root, lines[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -- the simulation ---------------------------------------------------------


@st.composite
def run_case(draw, limit):
    c = draw(command_case())
    c["how"], c["status"] = "bash", 0
    if c["script"] == "run_Ni_NiO_Xbath.sh" and c["args"] and c["args"][0] in ("100", "300"):
        c["args"][0] = draw(st.sampled_from(["10", "20", "50"]))
    e = {}
    new = {
        "T": gens.positive(5, 900),
        "delta": gens.positive(0.05, 1),
        "deltaRIXS": gens.positive(0.02, 0.3),
        "deltaNIXS": gens.positive(0.02, 0.3),
        "energy_cut": gens.positive(1, 60),
        "hField": st.lists(gens.positive(1e-3, 0.5), min_size=3, max_size=3),
        "nPsiMax": st.integers(2, 20),
        "xi_3d": gens.positive(0, 0.3),
        "chargeTransferCorrection": gens.positive(0.5, 3),
        "nPrintSlaterWeights": st.integers(1, 4),
    }
    for k in draw(st.lists(st.sampled_from(sorted(new)), max_size=5, unique=True)):
        e[k] = draw(new[k])
    c["extra"] = e
    c["reduce"] = draw(st.lists(st.sampled_from([["dnTols", 1], ["dnTols", 0], ["dnValBaths", 1], ["dnValBaths", 0], ["dnConBaths", 0]]), max_size=3))
    c["limit"] = limit
    return c


def check_run(ctx, c):
    d = scratch()
    try:
        ion, program, files, opt, o = decode(ctx, c, d)
        h0, table = inputs(ctx, o, files)
        extra = dict(c["extra"])
        # electrons may move between fewer places, until the simulation is small enough
        for k, v in c["reduce"] + [["dnConBaths", 0], ["dnTols", 1], ["dnValBaths", 1], ["dnTols", 0], ["dnValBaths", 0]]:
            if p26.size(dict(o, **extra)) <= c["limit"]:
                break
            if v < extra.get(k, o[k])[1]:
                extra[k] = [0, v]
        args = p26.argv(opt, files, {"eq": False, "where": 0}) + p26.argv(extra, [], {"eq": True, "where": 0})
        opt = dict(opt, **extra)
        o.update(extra)
        work = os.path.join(d, "run")
        os.makedirs(work)
        ctx.sut_calls += 1
        out = driver.run(program, args, work)
        ctx.check(out["error"] is None, "%s %s: %s %s failed: %s", c["script"], c["args"], program, " ".join(args), out["error"])
        ctx.check(len(out["calls"]) == 1, "spectra stage reached %d times", len(out["calls"]))
        got = out["calls"][0]
        case = {"program": program, "opt": opt}
        info = p26.judge(ctx, case, o, got, files, h0, table)
        p26.npz(ctx, work, case, o, files, got)
        ctx.label(c["script"])
        if info is None:
            return
        ctx.nontrivial(len(c["extra"]) > 1)
        ctx.label("up to %d product states" % 10 ** len(str(info[-1])))
        saved = info[1]
        n0 = ION[ion]
        if not set(c["extra"]) & {"hField", "xi_3d", "chargeTransferCorrection"} and o["nPsiMax"] > GROUND[n0] and saved is not None and n0 == 8:
            # spin triplet, split by less than 10 meV by spin-orbit coupling
            k = int((saved - saved[0] < 0.01).sum())
            ctx.check(k <= 3, "%s: %d states within 10 meV of the ground state", c["script"], k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUBS = [
    Sub("command", lambda t: command_case(), check_command, 240, shards=2),
    Sub("env", lambda t: env_case(), check_env, 60, 180),
    Sub("readme", lambda t: st.just({}), check_readme, 1, 1),
    Sub("run", lambda t: run_case(600 if t == "quick" else 1500), check_run, 60, 300, shards=6, setup=p26.setup),
]
