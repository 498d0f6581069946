"""Calculations that every rank of a (simulated or real) MPI job performs. Values returned are compared by the checks."""

import numpy as np


def _full(h):
    return np.asarray(h.toarray() if hasattr(h, "toarray") else h, dtype=complex)


def matrix(p):
    from impurityModel.ed import finite

    return [_full(finite.get_hamiltonian_matrix(p["n"], p["op"], p["basis"], mode=m)) for m in p["modes"]]


def expand(p):
    """A history of expansions that share one store."""
    from impurityModel.ed import finite

    store, out = {}, []
    for basis0, kind in p["steps"]:
        before = dict(store)
        if kind == "basis":
            b = finite.expand_basis(p["n"], store, p["op"], tuple(basis0), p["r"], p["mode"])
            h = None
        else:
            h, index = finite.expand_basis_and_hamiltonian(
                p["n"], store, p["op"], tuple(basis0), p["r"], p["mode"], return_h_local=kind == "local"
            )
            b = tuple(sorted(index, key=index.get))
            if [index[x] for x in b] != list(range(len(b))):
                b = ("bad index map", repr(index))
            h = _full(h)
        out.append({"basis": b, "h": h, "store": {k: dict(v) for k, v in store.items()}, "old_changed": any(store.get(k) != v for k, v in before.items())})
    return out


def green(p):
    from impurityModel.ed import spectra

    store, out = {}, []
    for e, psi in p["psis"]:
        out.append(
            spectra.getGreen(
                p["n"], e, psi, p["op"], np.array(p["w"]), p["delta"], p["krylov"], 1e-20, p["r"], store, parallelization_mode=p["mode"]
            )
        )
    return out


def getspectra(p):
    from impurityModel.ed import spectra

    kw = {"parallelization_mode": p["mode"]} if p["mode"] else {}
    return spectra.getSpectra(p["n"], p["op"], p["t"], p["psis"], p["es"], np.array(p["w"]), p["delta"], p["r"], slaterWeightMin=1e-20, **kw)


def rixs(p):
    from impurityModel.ed import spectra

    kw = {"parallelization_mode": p["mode"]} if p["mode"] else {}
    return spectra.getRIXSmap(
        p["n"], p["op"], p["tin"], p["tout"], p["psis"], p["es"], np.array(p["wIn"]), np.array(p["wLoss"]), p["d1"], p["d2"], p["r"],
        slaterWeightMin=1e-20, **kw
    )  # fmt: skip


def eigen(p):
    from impurityModel.ed import finite

    return finite.eigensystem(p["n"], p["op"], p["basis"], p["k"], groundDiagMode=p["diag"], slaterWeightMin=0)


def pipeline(p):
    """Eigenstates, their spectra and the thermal average, as a simulation does it."""
    from impurityModel.ed import average, finite, spectra

    es, psis = finite.eigensystem(p["n"], p["op"], p["basis"], p["k"], groundDiagMode=p["diag"])
    kw = {"parallelization_mode": p["mode"]} if p["mode"] else {}
    gs = spectra.getSpectra(p["n"], p["op"], p["t"], psis, es, np.array(p["w"]), p["delta"], p["r"], slaterWeightMin=1e-20, **kw)
    return es, np.asarray(gs), average.thermal_average(es, -gs.imag, T=p["T"])


def tasks(p):
    from impurityModel.ed import finite, mpi_comm

    return finite.get_job_tasks(mpi_comm.rank, mpi_comm.ranks, p["tasks"])


def gather(p):
    """allgather_dict, possibly several times in a row with the same target."""
    from impurityModel.ed import mpi_comm

    r = mpi_comm.rank
    total = dict(p["total"])
    out = []
    for parts, chunk in p["rounds"]:
        data = dict(parts[r])
        keep = dict(data)
        kw = {} if chunk is None else {"chunk_maxsize": chunk}
        ret = mpi_comm.allgather_dict(data, total, **kw)
        out.append((dict(total), ret is None or ret is total, data == keep))
    return out


def chunks(p):
    from impurityModel.ed import mpi_comm

    data = dict(p["parts"][mpi_comm.rank])
    kw = {} if p["chunk"] is None else {"chunk_maxsize": p["chunk"]}
    if p["root"] is not None:
        kw["root"] = p["root"]
    return list(mpi_comm.dict_chunks_from_one_MPI_rank(data, **kw))


def driver(p):
    """A simulation program up to the spectra stage; every rank in a directory of its own."""
    import os

    from impurityModel.ed import mpi_comm
    from lib import driver as d

    cwd = os.path.join(p["cwd"], "rank%d" % mpi_comm.rank)
    os.makedirs(cwd)
    out = d.run(p["program"], p["argv"], cwd)
    out["files"] = sorted(os.listdir(cwd))
    return out


def simulate(p):
    """simulate_spectra; every rank in a directory of its own, the root has the HDF5 file."""
    import os

    from checks import p25
    from impurityModel.ed import mpi_comm

    return p25.execute(p["args"], os.path.join(p["cwd"], "rank%d" % mpi_comm.rank), mpi_comm.rank == 0)
