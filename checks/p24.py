"""P24 Work and data are distributed completely and without duplication."""

import numpy as np
from hypothesis import strategies as st

from lib import fakempi, gens, ref, systems
from lib.harness import Sub

PROP = "P24"
RULE = (
    "Work lists, dictionaries and histories of basis expansions are drawn together with a number of ranks (1-6) and the timing of the "
    "messages; all ranks run in a simulated MPI (processes with different hash seeds). Partition, ownership, sum of the matrix parts and "
    "unions are decided exactly over all ranks. Non-trivial: at least two ranks and at least two of them hold something (expansions: at "
    "least two steps, a later one of which meets known as well as unknown product states)."
)
ASSUMPTIONS = [
    "the simulated MPI of lib/fakempi.py (blocking operations, buffered or rendezvous sends, synchronizing or early-completing collectives)",
    "the keys held by different ranks are different, as documented",
]
POOL = {}


def pool(salt=0):
    if "p" not in POOL:
        POOL["p"] = fakempi.Pool(4, salt)
    return POOL["p"]


def setup(ctx):
    pool()


def simulate(ctx, function, payload, case):
    """Values returned by the ranks, in a simulated MPI."""
    size, timing = case["size"], case["timing"]
    ctx.sut_calls += size
    try:
        return pool().run("lib.mpitasks", function, payload, size, timing >> 2, bool(timing & 1), bool(timing & 2))
    except fakempi.MPIViolation as e:
        ctx.fail("%s on %d ranks: %s" % (function, size, e))


def timing():
    return st.integers(0, 4095)


# -- work lists -------------------------------------------------------------


@st.composite
def tasks_case(draw):
    kind = draw(st.sampled_from(["range", "list", "tuple"]))
    k = draw(st.one_of(st.integers(0, 12), st.integers(0, 400)))
    t = list(range(k)) if kind == "range" else draw(st.lists(st.integers(-50, 500), min_size=k if k < 30 else 0, max_size=k, unique=True))
    return {"kind": kind, "t": t, "ranks": draw(st.one_of(st.integers(1, 9), st.integers(1, 300)))}


def check_tasks(ctx, case):
    from impurityModel.ed import finite

    t = {"range": lambda x: range(len(x)), "list": list, "tuple": tuple}[case["kind"]](case["t"])
    n = case["ranks"]
    parts = [ctx.call(finite.get_job_tasks, r, n, t) for r in range(n)]
    for p in parts:
        ctx.check(isinstance(p, (tuple, list)), "work of one rank is %r", type(p))
    ctx.nontrivial(n > 1 and sum(len(p) > 0 for p in parts) > 1)
    ctx.label("more ranks than work" if n > len(t) else "remainder" if len(t) % n else "even")
    every = [x for p in parts for x in p]
    ctx.check(len(every) == len(t) and sorted(every) == sorted(t), "work items %s are assigned as %s over %d ranks" % (list(t), parts, n))
    sizes = [len(p) for p in parts]
    ctx.check(max(sizes) - min(sizes) <= 1, "numbers of work items per rank differ by more than one: %s", sizes)


# -- dictionaries -----------------------------------------------------------


@st.composite
def dict_case(draw):
    size = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 9, 12]))
    rounds = draw(st.integers(1, 3))
    used = 0
    out = []
    for _ in range(rounds):
        parts = []
        for _ in range(size):
            k = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 7, 8, 12]))
            parts.append([used, k])
            used += k
        chunk = draw(st.sampled_from([None, 1, 2, 3, 4, 5, 7, 12]))
        if draw(st.integers(0, 4)) == 0:
            # multiples of a large chunk, or one more or less
            chunk = draw(st.sampled_from([100, 200, 300]))
            j = draw(st.integers(0, size - 1))
            k = chunk * draw(st.integers(1, 3)) + draw(st.integers(-1, 1))
            parts[j] = [used, k]
            used += k
        out.append([parts, chunk])
    return {"size": size, "timing": draw(timing()), "rounds": out, "total": draw(st.integers(0, 4)), "kind": draw(st.integers(0, 1))}


def item(kind, i):
    key = bytes([i % 251, i // 251, 7]) if kind else (i, "x")
    return key, ({bytes([i % 250]): complex(i, 1)} if i % 3 else {}) if kind else i * i


def expand_parts(case, parts):
    return [dict(item(case["kind"], a + j) for j in range(k)) for a, k in parts]


def check_dict(ctx, case):
    rounds = [(expand_parts(case, parts), chunk) for parts, chunk in case["rounds"]]
    total = dict(item(case["kind"], 10000 + j) for j in range(case["total"]))
    res = simulate(ctx, "gather", {"rounds": rounds, "total": total}, case)
    want = dict(total)
    holders = max(sum(len(p) > 0 for p in parts) for parts, _ in rounds)
    ctx.nontrivial(case["size"] > 1 and holders > 1)
    for i, (parts, chunk) in enumerate(rounds):
        for p in parts:
            want.update(p)
        m = max(len(p) for p in parts)
        ctx.label("chunks" if chunk and m > chunk else "at once")
        for r in range(case["size"]):
            got, ret, kept = res[r][i]
            ctx.check(
                got == want,
                "round %d (chunk size %s, sizes %s): rank %d misses %s and has unexpected %s",
                i, chunk, [len(p) for p in parts], r, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5],
            )  # fmt: skip
            ctx.check(kept, "rank %d: the data to be distributed was modified", r)


def check_chunks(ctx, case):
    parts = expand_parts(case, case["rounds"][0][0])
    chunk = case["rounds"][0][1]
    root = case["timing"] % case["size"]
    res = simulate(ctx, "chunks", {"parts": parts, "chunk": chunk, "root": root if root or case["total"] else None}, case)
    data = parts[root]
    ctx.nontrivial(case["size"] > 1 and chunk is not None and len(data) > chunk)
    ctx.check(len({len(x) for x in res}) == 1, "ranks yield different numbers of chunks: %s", [len(x) for x in res])
    for r in range(case["size"]):
        if r != root:
            ctx.check(all(x is None for x in res[r]), "rank %d (not the root) yields %r", r, res[r])
    got = {}
    for x in res[root]:
        ctx.check(isinstance(x, dict) and len(x) <= (chunk or 10**6), "chunk %r exceeds the size %s", x, chunk)
        ctx.check(not set(x) & set(got), "element in two chunks")
        got.update(x)
    ctx.check(got == data, "chunks %r do not add up to the data %r", res[root], data)


# -- distributed Hamiltonian ------------------------------------------------


@st.composite
def expand_case(draw):
    c = draw(systems.system(hi=12))
    c["size"] = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 10]))
    c["timing"] = draw(timing())
    c["steps"] = draw(
        st.lists(
            st.tuples(st.lists(st.integers(0, 9), min_size=1, max_size=3), st.sampled_from(["basis", "local", "local", "full"])),
            min_size=1,
            max_size=4,
        )
    )
    return c


def expand_setup(ctx, case, limit):
    """(n, restrictions, operator, [(start states, kind)]) or None"""
    r = gens.torestr(case["r"])
    op = systems.hamiltonian(case)
    ms = [m for m in case["pool"] if ref.allowed(m, r)]
    if not ms or not op:
        ctx.label("no Hamiltonian")
        return None
    if systems.dense(op, ms, r, limit) is None:
        ctx.exclude("connected set too big")
        return None
    steps = []
    for picks, kind in case["steps"]:
        steps.append((list(dict.fromkeys(ms[i % len(ms)] for i in picks)), kind))
    return case["n"], r, op, steps


def check_expand(ctx, case):
    s = expand_setup(ctx, case, 150)
    if s is None:
        return
    n, r, op, steps = s
    size = case["size"]
    p = {"n": n, "op": op, "r": r, "mode": "H_build", "steps": [([ref.enc(m, n) for m in b], k) for b, k in steps]}
    res = simulate(ctx, "expand", p, case)
    ctx.label("%d ranks" % size)
    known = set()
    for i, (b0, kind) in enumerate(steps):
        basis = sorted(ref.closure(op, b0, r, 1e-8))  # contributions that cancel reach nothing
        H = ref.matrix(op, basis)
        b0 = [ref.enc(m, n) for m in b0]
        conn = set(basis)
        if i and size > 1 and conn & known and conn - known:
            ctx.nontrivial()
            ctx.label("partly known store")
        if size > 1 and len(steps) == 1 and len(basis) > size:
            ctx.label("one step")
        known |= conn
        total = 0
        first = res[0][i]["basis"]
        for k in range(size):
            x = res[k][i]
            ctx.check(x["basis"] == first, "step %d: basis of rank %d differs from that of rank 0: %s, %s", i, k, x["basis"], first)
            ctx.check(not x["old_changed"], "step %d: existing entries of the store of rank %d were changed", i, k)
        masks = [ref.dec(x, n) for x in first]
        ctx.check(
            len(masks) == len(set(masks)) and set(masks) == conn and list(first[: len(b0)]) == list(b0),
            "step %d: basis %s, expected %s starting with %s", i, masks, basis, b0,
        )  # fmt: skip
        perm = [basis.index(m) for m in masks]
        want = H[np.ix_(perm, perm)]
        if kind == "local":
            total = sum(res[k][i]["h"] for k in range(size))
            ctx.close(total, want, "step %d: sum of the local matrices" % i, 1e-9, 1e-9)
            held = [set(np.nonzero(res[k][i]["h"].any(axis=0))[0]) for k in range(size)]
            for a in range(size):
                for b in range(a):
                    ctx.check(not held[a] & held[b], "step %d: column of the Hamiltonian on ranks %d and %d", i, a, b)
        elif kind == "full":
            for k in range(size):
                ctx.close(res[k][i]["h"], want, "step %d: full matrix on rank %d" % (i, k), 1e-9, 1e-9)
        # the stores
        owners = {}
        for k in range(size):
            for ps, val in res[k][i]["store"].items():
                ctx.check(ps not in owners, "step %d: product state %s is held by ranks %s and %d", i, ps, owners.get(ps), k)
                owners[ps] = k
                m = ref.dec(ps, n)
                x = ref.apply(op, {m: 1}, r)
                got = {ref.dec(q, n): a for q, a in val.items()}
                for q in set(x) | set(got):
                    ctx.check(abs(x.get(q, 0) - got.get(q, 0)) <= 1.1e-6 + 1e-9 * abs(x.get(q, 0)), "store of rank %d: H|%s> is %s, expected %s", k, m, got, x)
        got = {ref.dec(q, n) for q in owners}
        ctx.check(got == known, "step %d: stores hold %s, expected %s", i, sorted(got), sorted(known))


SUBS = [
    Sub("tasks", lambda t: tasks_case(), check_tasks, 500),
    Sub("gather", lambda t: dict_case(), check_dict, 240, shards=2, setup=setup),
    Sub("chunks", lambda t: dict_case(), check_chunks, 120, setup=setup),
    Sub("expand", lambda t: expand_case(), check_expand, 400, shards=4, setup=setup),
]
