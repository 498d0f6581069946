"""P27 Plot scripts display exactly the stored spectra."""

import contextlib
import io
import os
import re
import runpy
import shutil
import sys
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st

from lib import gens
from lib.harness import Sub

PROP = "P27"
RULE = (
    "Result files with any subset of the five spectra, 1-4 polarizations or scattering vectors, drawn mesh sizes, values (with vanishing, "
    "tiny and negative intensities) and extra data sets are written; the scripts run as __main__, with an explicit or the default file name, "
    "and all lines and images of all figures are collected and compared with sums over the stored arrays; figures are rendered. The bytes of "
    "the file must not change. Non-trivial: at least two kinds of spectra, or a binary map with masked as well as visible points."
)
ASSUMPTIONS = ["meshes have at least two points (three for the loss mesh of a map) and are equidistant", "matplotlib backend Agg"]
L3 = np.arange(-7, 2, 1)
L2 = np.arange(11, 16, 1)


def values(shape, seed, scale):
    rng = np.random.default_rng(seed)
    x = rng.random(shape) * scale
    k = rng.integers(0, 5)
    if k == 0:
        x = np.where(rng.random(shape) < 0.4, rng.choice([0.0, 1e-8, -1e-9, 5e-7, 3e-6, -2e-5], shape), x)
    elif k == 1 and len(shape) > 2:
        x[tuple(rng.integers(0, s) for s in shape[:2])] = 0
    elif k == 2:
        x = x * 10.0 ** rng.integers(-7, 2, shape)
    return x


@st.composite
def mesh(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    return [draw(st.sampled_from([-10, -8, -2, -1.5, 0, 3])) + draw(gens.reals(1)), draw(gens.positive(0.01, 6)), n]


def points(m):
    return m[0] + m[1] * np.arange(m[2])


@st.composite
def case(draw):
    k = draw(st.integers(0, 40))
    kinds = [x for i, x in enumerate(["RIXS", "XAS", "NIXS", "PS", "XPS"]) if k % 32 >> i & 1]
    return {
        "kinds": sorted(kinds),
        "w": draw(mesh(2, 12)),
        "wIn": draw(st.one_of(mesh(2, 7), st.just([-10.0, 0.7, 45]))),
        "wLoss": draw(mesh(3, 12)),
        "np": [draw(st.sampled_from([1, 2, 3, 1, 2])) for _ in range(2)] + [draw(st.integers(1, 4)) for _ in range(4)],
        "seed": draw(st.integers(0, 10**6)),
        "scale": draw(st.sampled_from([1, 1, 1, 30, 1e-3, 1e-7, 0])),
        "qs": draw(st.booleans()),
        "r": draw(st.booleans()),
        "states": draw(st.booleans()),
        "name": draw(st.sampled_from([None, None, "spectra.h5", "out put.h5", "sub/x.hdf5"])),
        "f32": draw(st.integers(0, 5)) == 0,
    }


class Recorder:
    """Data of all figures of a script."""

    def __init__(self):
        self.figs, self.keep = {}, []

    def take(self, plt, draw=False):
        for k in plt.get_fignums():
            f = plt.figure(k)
            if draw:
                f.canvas.draw()
            self.keep.append(f)
            axes = []
            for ax in f.axes:
                lines = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), str(l.get_label())) for l in ax.lines]
                images = []
                for im in ax.images:
                    a = im.get_array()
                    data = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
                    images.append((data, tuple(map(float, im.get_extent())), im.origin))
                if lines or images:
                    axes.append({"lines": lines, "images": images, "title": ax.get_title()})
            self.figs[id(f)] = axes


def run_script(module, argv, cwd):
    """-> (figures, error)"""
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    plt.close("all")
    rec = Recorder()
    show, here, argv0 = plt.show, os.getcwd(), sys.argv
    plt.show = lambda *a, **k: rec.take(plt)
    sys.argv = [module] + argv
    os.chdir(cwd)
    error = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                runpy.run_module("impurityModel.plotScripts." + module, run_name="__main__")
                rec.take(plt, draw=True)
            except SystemExit as e:
                error = None if e.code in (None, 0) else "exit: %s" % e.code
            except Exception as e:
                import traceback

                error = "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-2:]))
    finally:
        os.chdir(here)
        sys.argv = argv0
        plt.show = show
        plt.close("all")
    return [f for f in rec.figs.values() if f], error


def same(x, y, scale):
    return x.shape == y.shape and np.all(np.abs(x - y) <= 1e-9 * np.abs(y) + 1e-12 * scale)


def match(ctx, figs, want):
    """want: axes contents: ("lines", name, [(x, y, pattern or None)]) or ("image", name, data, extent, numbers of the title)"""
    axes = [a for f in figs for a in f]
    used = set()
    for w in want:
        found, why = None, "no such diagram"
        for k, a in enumerate(axes):
            if k in used:
                continue
            if w[0] == "lines" and len(a["lines"]) == len(w[2]) and not a["images"]:
                rest, ok = list(a["lines"]), True
                for x, y, pattern in w[2]:
                    scale = max(1e-6, np.abs(y).max())
                    hit = [l for l in rest if same(l[0], x, max(1, np.abs(x).max())) and same(l[1], y, scale) and (pattern is None or re.search(pattern, l[2]))]
                    if not hit:
                        ok, why = False, "no curve %s with x=%s, y=%s among %s" % (pattern, x[:4], y[:4], [(l[2], l[0][:4], l[1][:4]) for l in rest][:3])
                        break
                    # by identity: arrays can not be compared by remove()
                    rest = [l for l in rest if l is not hit[0]]
                if ok:
                    found = k
                    break
            elif w[0] == "image" and len(a["images"]) == 1 and not a["lines"]:
                data, extent, origin = a["images"][0]
                d = w[2]
                if origin != "lower":
                    data = data[::-1]
                ok = data.shape == d.shape and np.array_equal(np.isnan(data), np.isnan(d)) and np.allclose(np.nan_to_num(data), np.nan_to_num(d), 1e-6, 1e-12)
                if not ok:
                    why = "image data differ"
                elif not np.allclose(extent, w[3], 1e-5, 1e-5):
                    ok, why = False, "extent %s, expected %s" % (extent, w[3])
                elif w[4] is not None and re.findall(r"\d+", a["title"]) != [str(i) for i in w[4]]:
                    ok, why = False, "title %r of the map for polarizations %s" % (a["title"], w[4])
                if ok:
                    found = k
                    break
        ctx.check(found is not None, "%s is not displayed as stored: %s", w[1], why)
        used.add(found)
    left = [a for k, a in enumerate(axes) if k not in used]
    ctx.check(not left, "%d more diagrams, e.g. %s", len(left), left and ([l[2] for l in left[0]["lines"]], left[0]["title"]))


def cutoff(x):
    """None if undecidable."""
    if np.any(np.abs(x - 1e-6) < 1e-9):
        return None
    return np.where(x < 1e-6, np.nan, x)


def extent(wIn, wLoss):
    dx, dy = wIn[1] - wIn[0], wLoss[1] - wLoss[0]
    return (wIn[0] - dx / 2, wIn[-1] + dx / 2, wLoss[0] - dy / 2, wLoss[-1] + dy / 2)


def number(x):
    return r"(?<![-\d.])" + re.escape("%.1f" % x) + r"(?!\d)"


def scratch():
    d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "p27_%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "sub"))
    return d


def check(ctx, c):
    w, wIn, wLoss = points(c["w"]), points(c["wIn"]), points(c["wLoss"])
    a, b, p, x, q, e = c["np"]
    shapes = {"PS": (10, len(w)), "XPS": (6, len(w)), "XAS": (x, len(w)), "NIXS": (q, len(wLoss)), "RIXS": (a, b, len(wIn), len(wLoss))}
    data = {k: values(shapes[k], c["seed"] + i, c["scale"] if k == "RIXS" else 1) for i, k in enumerate(sorted(shapes)) if k in c["kinds"]}
    if c["f32"]:
        data = {k: v.astype(np.float32).astype(float) for k, v in data.items()}
    qs = np.random.default_rng(c["seed"]).normal(size=(q, 3)) * 3
    want = []
    if "PS" in data:
        want.append(("lines", "PS", [(w, data["PS"].sum(axis=0), None)]))
    if "XPS" in data:
        want.append(("lines", "XPS", [(w, data["XPS"].sum(axis=0), None)]))
    rixs = data.get("RIXS")
    if rixs is not None and np.abs(wLoss - 0.2).min() < 1e-9:
        ctx.exclude("loss mesh point at 0.2")
        return
    if "XAS" in data:
        lines = [(w, data["XAS"].sum(axis=0), "XAS")]
        if rixs is not None:
            s = (wLoss[1] - wLoss[0]) / (np.pi * a)
            lines.append((wIn, s * np.einsum("abij->i", rixs), r"^(?!.*elastic).*FY"))
            lines.append((wIn, s * np.einsum("abij->i", rixs[..., wLoss < 0.2]), "elastic"))
        want.append(("lines", "XAS", lines))
    if "NIXS" in data:
        if c["qs"] and np.abs(np.linalg.norm(qs, axis=1) * 10 % 1 - 0.5).min() < 1e-6:
            ctx.exclude("ambiguous label")
            return
        want.append(("lines", "NIXS", [(wLoss, data["NIXS"][i], number(np.linalg.norm(qs[i])) if c["qs"] else r"(?<!\d)%d(?!\d)" % i) for i in range(q)]))
    if rixs is not None:
        tot = np.einsum("abij->ij", rixs)
        dist = np.abs(wIn[:, None] - np.concatenate([L3, L2])[None])
        gap = np.sort(dist, axis=0)
        if np.any(gap[1] - gap[0] < 1e-9):
            ctx.exclude("two mesh points equally close")
            return
        for name, es, off in (("L3", L3, 1.5), ("L2", L2, 1)):
            want.append(("lines", "energy loss at " + name, [(wLoss, tot[np.argmin(np.abs(wIn - x))] + off * i, number(x)) for i, x in enumerate(es)]))
        maps = [(tot.T, None)]
        if (a, b) != (1, 1):
            maps += [(rixs[i, j].T, (i, j)) for i in range(a) for j in range(b)]
        for m, ij in maps:
            m = cutoff(m)
            if m is None:
                ctx.exclude("intensity at the cutoff")
                return
            if np.all(np.isnan(m)):
                ctx.label("map without intensity")
            want.append(("image", "RIXS map %s" % (ij and list(ij) or ""), m, extent(wIn, wLoss), ij))
    d = scratch()
    try:
        name = c["name"] or "spectra.h5"
        path = os.path.join(d, name)
        with h5py.File(path, "w") as f:
            f["E"] = np.arange(1.0 * e)
            f["w"], f["wIn"], f["wLoss"] = w, wIn, wLoss
            if c["qs"]:
                f["qsNIXS"] = qs
            if c["r"]:
                f["r"], f["RiNIXS"], f["RjNIXS"] = np.linspace(0, 1, 5), np.ones(5), np.ones(5)
            for k, v in data.items():
                f[k + "thermal"] = v
                if c["states"]:
                    f[k] = np.random.default_rng(7).random((e,) + v.shape)
        with open(path, "rb") as f:
            before = f.read()
        ctx.sut_calls += 1
        figs, error = run_script("plotSpectra", [] if c["name"] is None else [c["name"]], d)
        ctx.check(error is None, "plotSpectra fails for a file with %s: %s", sorted(data), error)
        with open(path, "rb") as f:
            ctx.check(f.read() == before, "the result file was modified")
        match(ctx, figs, want)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label("+".join(sorted(data)) if len(data) < 3 else "%d kinds" % len(data))
    ctx.label("default name" if c["name"] is None else "explicit name")
    ctx.nontrivial(len(data) > 1)


@st.composite
def bin_case(draw):
    return {
        "wIn": draw(mesh(2, 9)),
        "wLoss": draw(mesh(2, 30)),
        "seed": draw(st.integers(0, 10**6)),
        "scale": draw(st.sampled_from([1, 30, 3e-6, 1e-5, 1e-7])),
        "name": draw(st.sampled_from([None, "RIXS.bin", "out put.bin", "sub/x.bin"])),
    }


def check_bin(ctx, c):
    wIn, wLoss = (points(c[k]).astype(np.float32) for k in ("wIn", "wLoss"))
    v = values((len(wLoss), len(wIn)), c["seed"], c["scale"]).astype(np.float32)
    m = cutoff(v.astype(float))
    if m is None:
        ctx.exclude("intensity at the cutoff")
        return
    t = np.zeros((len(wLoss) + 1, len(wIn) + 1), dtype=np.float32)
    t[0, 0] = len(wIn)
    t[0, 1:], t[1:, 0], t[1:, 1:] = wIn, wLoss, v
    d = scratch()
    try:
        path = os.path.join(d, c["name"] or "RIXS.bin")
        t.tofile(path)
        ctx.sut_calls += 1
        figs, error = run_script("plotRIXS", [] if c["name"] is None else [c["name"]], d)
        ctx.check(error is None, "plotRIXS fails: %s", error)
        ctx.check(np.array_equal(np.fromfile(path, dtype=np.float32), t.ravel()), "the result file was modified")
        match(ctx, figs, [("image", "RIXS map", m, extent(wIn.astype(float), wLoss.astype(float)), None)])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label("default name" if c["name"] is None else "explicit name")
    ctx.nontrivial(bool(np.isnan(m).any() and not np.isnan(m).all()))


def check_missing(ctx, c):
    """No or surplus files."""
    d = scratch()
    try:
        if c["surplus"]:
            np.zeros(9, dtype=np.float32).tofile(os.path.join(d, "RIXS.bin"))
            h5py.File(os.path.join(d, "spectra.h5"), "w").close()
        argv = [c["name"], c["name"]] if c["surplus"] else [c["name"]] if c["name"] else []
        ctx.sut_calls += 1
        figs, error = run_script(c["script"], argv, d)
        ctx.check(error is not None, "%s %s ends without an error", c["script"], argv)
        ctx.check(not figs, "%s %s draws something", c["script"], argv)
        ctx.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def missing():
    return st.fixed_dictionaries(
        {"script": st.sampled_from(["plotSpectra", "plotRIXS"]), "name": st.sampled_from([None, "nothing.h5", "sub", "sub/RIXS.bin"]), "surplus": st.booleans()}
    ).filter(lambda c: c["name"] or not c["surplus"])


SUBS = [
    Sub("spectra", lambda t: case(), check, 120, shards=7, thorough=2400),
    Sub("binary", lambda t: bin_case(), check_bin, 60, shards=1, thorough=1500),
    Sub("missing", lambda t: missing(), check_missing, 12, thorough=30),
]
