"""P13 Spin-orbit, Zeeman and cubic-harmonics definitions are exact."""

import numpy as np
from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P13"
RULE = (
    "Coupling constants, field vectors (axis-parallel, zero and generic) and shells l = 0..5 are drawn; operators are compared in normal "
    "form with L.S and h.S built from angular-momentum matrices, and their spectra with j(j+1) and the Zeeman ladder. The cubic matrix is "
    "evaluated as functions of drawn directions and compared with the cubic harmonics. Non-trivial: non-zero strength and l > 0, "
    "respectively at least two non-zero field components."
)


def case_soc(tier):
    return st.fixed_dictionaries({"l": st.sampled_from([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]), "xi": st.one_of(st.just(0), gens.rnumbers(), gens.reals(0.2), st.integers(-99, 99).map(lambda k: k * 1e-5), st.integers(-99, 99).map(lambda k: k * 1e-11))})


def default_or(l):
    """Sometimes rely on the documented default l=2."""
    return {} if l == 2 else {"l": l}


def check_soc(ctx, case):
    from impurityModel.ed import finite

    l, xi = case["l"], case["xi"]
    ctx.nontrivial(xi != 0 and l > 0)
    ctx.label("l=%d" % l)
    kw = default_or(l)
    got = ctx.call(finite.getSOCop, xi, **kw)
    labels = ref.shell_labels(l)
    ref.check_op(ctx, got, "getSOCop", set(labels))
    ref.compare_ops(ctx, got, ref.soc_op(xi, l), "getSOCop(%r,%d)" % (xi, l), scale=abs(xi) * max(l, 1))
    n = len(labels)
    M = ref.matrix(ref.reindex(got, {x: i for i, x in enumerate(labels)}), [1 << i for i in range(n)])
    want = [xi * l / 2] * (2 * l + 2) + [-xi * (l + 1) / 2] * (2 * l)
    ctx.close(np.linalg.eigvalsh(M), np.sort(want) if l else np.zeros(2), "spin-orbit levels", 1e-9, 1e-9)
    for p, v in got.items():
        q = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        ctx.check(got.get(q, 0) == np.conj(v), "getSOCop is not exactly Hermitian: %s", p)


def comp():
    return st.one_of(st.just(0), st.just(0.0), gens.rnumbers(), gens.reals(0.01), st.integers(-99, 99).map(lambda k: k * 1e-6), st.integers(-99, 99).map(lambda k: k * 1e-11))


def case_field(tier):
    return st.fixed_dictionaries({"l": st.sampled_from([0, 1, 2, 2, 2, 3, 3, 4, 5]), "h": st.lists(comp(), min_size=3, max_size=3)})


def check_field(ctx, case):
    from impurityModel.ed import finite

    l, h = case["l"], case["h"]
    ctx.nontrivial(sum(x != 0 for x in h) >= 2)
    ctx.label("%d components" % sum(x != 0 for x in h))
    got = ctx.call(finite.gethHfieldop, *h, **default_or(l))
    labels = ref.shell_labels(l)
    ref.check_op(ctx, got, "gethHfieldop", set(labels))
    ref.compare_ops(ctx, got, ref.field_op(h, l), "gethHfieldop(%s,%d)" % (h, l), scale=max(map(abs, h)))
    n = len(labels)
    M = ref.matrix(ref.reindex(got, {x: i for i, x in enumerate(labels)}), [1 << i for i in range(n)])
    b = np.linalg.norm(h) / 2
    ctx.close(np.linalg.eigvalsh(M), [-b] * (n // 2) + [b] * (n // 2), "Zeeman levels", 1e-9, 1e-9)
    for p, v in got.items():
        q = tuple((i, "c" if k == "a" else "a") for i, k in reversed(p))
        ctx.check(got.get(q, 0) == np.conj(v), "gethHfieldop is not exactly Hermitian: %s", p)


def case_cubic(tier):
    d = st.tuples(gens.reals(1), gens.reals(1), gens.reals(1)).filter(lambda v: sum(x * x for x in v) > 0.01)
    return st.fixed_dictionaries(
        {"l": st.sampled_from([1, 2]), "spinpol": st.booleans(), "dirs": st.lists(d, min_size=3, max_size=8), "rot": st.integers(0, 23)}
    )


def check_cubic(ctx, case):
    from impurityModel.ed import finite

    l, spinpol = case["l"], case["spinpol"]
    ctx.nontrivial()
    ctx.label("l=%d spinpol=%s" % (l, spinpol))
    u = ctx.call(finite.get_spherical_2_cubic_matrix, spinpol=spinpol, **({} if l == 2 else {"l": l}))
    n = 2 * l + 1
    u = ctx.array(u, (2 * n, 2 * n) if spinpol else (n, n), "u")
    ctx.close(u.conj().T @ u, np.eye(len(u)), "u^+ u")
    if spinpol:
        ctx.close(u[:n, n:], np.zeros((n, n)), "spin mixing")
        ctx.close(u[n:, :n], np.zeros((n, n)), "spin mixing")
        ctx.close(u[:n, :n], u[n:, n:], "spin-up block")
        u = u[:n, :n]
    # functions along drawn directions
    x, y, z = np.array(case["dirs"]).T
    r = np.sqrt(x * x + y * y + z * z)
    x, y, z = x / r, y / r, z / r
    Y = np.array([ref.ylm(l, m, z, np.arctan2(y, x)) for m in ref.lm(l)])
    f = u.T @ Y
    ctx.close(f.imag, np.zeros(f.shape), "imaginary part of the cubic harmonics")
    names = ["3z2-r2", "x2-y2", "yz", "xz", "xy"] if l == 2 else ["y", "x", "z"]
    vec = ref.cubic_vectors(l)
    groups = [(0, 2), (2, 5)] if l == 2 else [(0, 3)]
    for a, b in groups:
        left = set(names[a:b])
        for j in range(a, b):
            hit = [k for k in left if abs(abs(np.vdot(vec[k], u[:, j])) - 1) < 1e-9]
            ctx.check(len(hit) == 1, "column %d is not one of the cubic harmonics %s", j, sorted(left))
            left.remove(hit[0])


SUBS = [
    Sub("soc", case_soc, check_soc, 1200, shards=2),
    Sub("field", case_field, check_field, 1200, shards=2),
    Sub("cubic", case_cubic, check_cubic, 600),
]
