"""Runs a simulation program as `python -m impurityModel.ed.<program> ARGV`, up to the spectra stage."""

import contextlib
import inspect
import io
import os
import runpy
import sys

import numpy as np

NAMES = (
    "es psis hOp T w delta epsilons wLoss deltaNIXS qsNIXS liNIXS ljNIXS RiNIXS RjNIXS radialMesh wIn deltaRIXS epsilonsRIXSin "
    "epsilonsRIXSout restrictions h5f nBaths"
).split()


def bind(sig, args, kwargs):
    """Arguments of simulate_spectra by (documented) position."""
    b = sig.bind(*args, **kwargs)
    b.apply_defaults()
    vals = list(b.arguments.values())
    names = list(b.arguments)
    if set(NAMES) <= set(names):
        return {k: b.arguments[k] for k in NAMES}
    return dict(zip(NAMES, vals))


def run(program, argv, cwd):
    """-> dict(calls=[arguments of each call of simulate_spectra], stdout, stderr, error)"""
    from impurityModel.ed import spectra

    out = {"calls": [], "error": None}
    original = spectra.simulate_spectra
    sig = inspect.signature(original)

    def record(*args, **kwargs):
        a = bind(sig, args, kwargs)
        h = a.pop("h5f")
        if h is None:
            a["h5f"] = None
        else:
            a["h5f"] = {k: np.array(h[k]) for k in h}
            a["h5mode"] = h.mode
            a["h5name"] = os.path.basename(h.filename)
            h.close()
        out["calls"].append(a)

    here, argv0 = os.getcwd(), sys.argv
    so, se = io.StringIO(), io.StringIO()
    os.chdir(cwd)
    sys.argv = [program] + list(argv)
    spectra.simulate_spectra = record
    try:
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            runpy.run_module("impurityModel.ed." + program, run_name="__main__", alter_sys=False)
    except SystemExit as e:
        out["error"] = None if e.code in (None, 0) else "SystemExit: %s" % e.code
    except Exception as e:
        import traceback

        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]))
    finally:
        spectra.simulate_spectra = original
        sys.argv = argv0
        os.chdir(here)
    out["stdout"], out["stderr"] = so.getvalue(), se.getvalue()
    return out
