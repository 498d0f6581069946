"""P02 Creation and removal of electrons obey the fermionic algebra."""

import copy

from hypothesis import strategies as st

from lib import gens, ref
from lib.harness import Sub

PROP = "P02"
RULE = (
    "A number of spin-orbitals (1-130, byte boundaries emphasised), a product state and a spin-orbital are drawn; each of the "
    "five encodings' create and remove functions is compared with the parity rule on integer masks and with each other. For "
    "superpositions (also with very different amplitudes), a and c are compared with the reference, for linearity and for the canonical anticommutation relations. "
    "Non-trivial: the state has an electron below the spin-orbital acted on (so the sign can be negative) and the action is allowed."
)
ASSUMPTIONS = ["if the amplitude is zero, the returned product state is unspecified"]


@st.composite
def product_case(draw, hi):
    n = draw(gens.n_orbitals(hi))
    m = draw(gens.mask(n))
    i = draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1])))
    return {"n": n, "m": m, "i": i}


def encodings(m, n):
    from bitarray import bitarray

    s = "".join("1" if m >> i & 1 else "0" for i in range(n))
    return {"tuple": tuple(ref.bits(m)), "str": s, "int": int(s, 2), "bitarray": bitarray(s), "bytes": ref.enc(m, n)}


def check_product(ctx, case):
    from impurityModel.ed import create, remove

    n, m, i = case["n"], case["m"], case["i"]
    for kind, mod in (("c", create), ("a", remove)):
        want = ref.act(m, [(i, kind)])
        ctx.label("%s %s" % (kind, "forbidden" if want is None else "sign %d" % want[1]))
        ctx.nontrivial(want is not None and m & ((1 << i) - 1) != 0)
        e = encodings(m, n)
        keep = copy.deepcopy(e)
        got = {
            "tuple": ctx.call(mod.utuple, i, e["tuple"]),
            "int": ctx.call(mod.uint, n, i, e["int"]),
            "str": ctx.call(mod.ustr, i, e["str"]),
            "bytes": ctx.call(mod.ubytes, n, i, e["bytes"]),
        }
        b = e["bitarray"].copy()
        amp = ctx.call(mod.ubitarray, i, b)
        got["bitarray"] = (b, amp)
        ctx.same_args(keep, e, "create/remove")
        wstate = None if want is None else encodings(want[0], n)
        for name, g in got.items():
            ctx.check(isinstance(g, tuple) and len(g) == 2, "%s.u%s returned %r", mod.__name__, name, g)
            wamp = 0 if want is None else want[1]
            ctx.check(g[1] == wamp, "%s.u%s(%d) on %s: amplitude %r, expected %d", mod.__name__, name, i, e["str"], g[1], wamp)
            if want is not None:
                ctx.check(
                    type(g[0]) is type(wstate[name]) and g[0] == wstate[name],
                    "%s.u%s(%d) on %s: state %r, expected %r", mod.__name__, name, i, e["str"], g[0], wstate[name],
                )


@st.composite
def lifted_case(draw, hi):
    n = draw(gens.n_orbitals(hi))
    num = draw(st.sampled_from([None, None, gens.scaled([1, 1, 1, 1e-3, 1e-6, 1e-9, 1e-12, 1e-20, 1e3, 1e6])]))
    psi = draw(gens.states(n, 0, 8, num))
    phi = draw(gens.states(n, 0, 4, num))
    i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    return {"n": n, "psi": psi, "phi": phi, "i": i, "j": j, "z": draw(gens.numbers())}


def check_lifted(ctx, case):
    from impurityModel.ed import finite

    n, i, j, z = case["n"], case["i"], case["j"], gens.tocplx(case["z"])
    psi, phi = gens.topsi(case["psi"]), gens.topsi(case["phi"])

    def op(kind, k, state):
        arg = ref.psi_out(state, n)
        before = dict(arg)
        out = ctx.call(finite.c if kind == "c" else finite.a, n, k, arg)
        ctx.same_args(before, arg, kind)
        ctx.check(out is not arg, "%s returned its argument", kind)
        return ref.psi_in(ctx, out, n, kind)

    ctx.nontrivial(len(psi) > 1 and i != j)
    for kind in "ca":
        want = ref.apply({((i, kind),): 1}, psi)
        got = op(kind, i, psi)
        ctx.check(set(got) == set(want), "%s_%d on %s: wrong product states", kind, i, psi)
        ref.compare_states(ctx, got, want, "%s_%d|psi>" % (kind, i))
        for m in want:
            ctx.check(abs(got[m] - want[m]) <= 1e-12 * abs(want[m]), "%s_%d|psi>: amplitude %r, expected %r", kind, i, got[m], want[m])
        # linearity
        mix = {m: psi.get(m, 0) + z * phi.get(m, 0) for m in set(psi) | set(phi)}
        o2 = op(kind, i, phi)
        lin = {m: got.get(m, 0) + z * o2.get(m, 0) for m in set(got) | set(o2)}
        size = {m: abs(got.get(m, 0)) + abs(z * o2.get(m, 0)) for m in lin}
        ref.compare_states(ctx, op(kind, i, mix), lin, "linearity of %s_%d" % (kind, i), tol=1e-9, scale=size)
    # canonical anticommutation relations
    for k1, k2 in ("aa", "cc", "ac", "ca"):
        x = op(k1, i, op(k2, j, psi))
        y = op(k2, j, op(k1, i, psi))
        s = {m: x.get(m, 0) + y.get(m, 0) for m in set(x) | set(y)}
        want = psi if (k1 != k2 and i == j) else {}
        ref.compare_states(ctx, s, want, "{%s_%d, %s_%d}|psi>" % (k1, i, k2, j))


SUBS = [
    Sub("product", lambda t: product_case(24), check_product, 12000, shards=2),
    Sub("product_wide", lambda t: product_case(130), check_product, 6000, shards=2),
    Sub("lifted", lambda t: lifted_case(20), check_lifted, 6000, shards=3),
    Sub("lifted_wide", lambda t: lifted_case(90), check_lifted, 1500),
]
