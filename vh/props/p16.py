"""P16: mixture shares become row counts that sum up and stay within one."""
import math
from fractions import Fraction

from vh import gen, jobs

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exact-arithmetic oracle over the row counts of random and adversarial mixtures"
NOTE = ("held on the executed mixtures, indices and ratios; shares are recomputed with exact rational arithmetic; "
        "floating point effects beyond the generated weights are not covered")
RULE = ("an evaluation is one mixture (static, hierarchical, inferred, adjusted chunk size) or one distribution by ratio; non-trivial: "
        "at least two domains; distinct by kind, chunk size and weights")
ASSUMPTIONS = ["weights within the accepted tolerance of 1 are normalised before shares are computed"]
CASES = {"quick": 400, "thorough": 24000}
BUDGET = {"quick": 40, "thorough": 500}
SHARDS = {"quick": 4, "thorough": 8}
CASE_CPU = 30
NATIVE = False
MUST_OBSERVE = ["static", "hierarchical", "inferred", "adjusted", "refused", "ratios"]
CHUNKS = [1, 2, 3, 4, 5, 7, 10, 16, 29, 64, 97, 100, 128, 1000, 4096, 99991]


def setup(ctx):
    from vh.boot import boot

    boot()


def domains(rng, n):
    out = set()
    while len(out) < n:
        k = rng.choice([1, 1, 2, 3])
        props = rng.sample(["language", "topic", "license", "year"], k)
        out.add(tuple(sorted((p, (f"v{rng.randrange(40)}",)) for p in props)))
    return sorted(out, key=lambda d: rng.random())


def weights(rng, n):
    """Weights whose float products are delicate: decimal fractions, equal shares, very skewed ones."""
    kind = rng.randrange(5)
    if kind == 0:
        w = [1.0 / n] * n
    elif kind == 1:
        raw = [rng.randrange(0 if n > 1 else 1, 100) for _ in range(n)]
        s = sum(raw) or 1
        w = [r / s for r in raw] if sum(raw) else [1.0 / n] * n
    elif kind == 2:
        cents = sorted(rng.sample(range(1, 100), min(n, 99) - 1)) if n > 1 else []
        w = [round((b - a) / 100, 2) for a, b in zip([0] + cents, cents + [100])]
        w += [0.0] * (n - len(w))
    elif kind == 3:
        raw = [10.0 ** rng.uniform(-9, 0) for _ in range(n)]
        w = [r / sum(raw) for r in raw]
    else:
        raw = [rng.random() for _ in range(n)]
        w = [r / sum(raw) for r in raw]
    if rng.random() < 0.3:
        f = 1 + rng.uniform(-9e-4, 9e-4)
        w = [x * f for x in w]
    return w


def judge(ctx, kind, rows, shares, size, tol=1):
    ctx.evaluated()
    ctx.count(kind)
    total = sum(shares.values())
    ctx.note(kind=kind, chunk_size=size, shares={str(k): float(v) for k, v in shares.items()}, rows={str(k): v for k, v in rows.items()})
    ctx.check(set(rows) <= set(shares), "a row count for a domain that is not in the mixture", "foreign-domain")
    ctx.check(all(isinstance(v, int) or float(v).is_integer() for v in rows.values()), "row count is not a whole number", "not-integral")
    ctx.check(all(v >= 0 for v in rows.values()), "negative row count", "negative")
    ctx.check(sum(rows.values()) == size, f"{kind}: row counts sum up to {sum(rows.values())}, chunk size is {size}", "sum")
    for d, w in shares.items():
        exact = Fraction(w) / Fraction(total) * size
        dev = abs(Fraction(int(rows.get(d, 0))) - exact)
        ctx.check(dev < tol + Fraction(size, 10**9), f"{kind}: domain {d} has {rows.get(d, 0)} rows, exact share is {float(exact)}", "share")
    if len(shares) > 1:
        ctx.distinct(kind, size, sorted((str(k), float(v)) for k, v in shares.items()))


def canon(rows):
    return {gen.key_tuple(k): v for k, v in rows.items()}


def wrap(rng, size, mixture):
    """A mixture that uses the given one, with a chunk size of its own."""
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry

    how = rng.choice(["schedule", "schedule", "dynamic", "both"])
    if how != "schedule":
        mixture = DynamicMixture(size if how == "dynamic" else rng.choice(CHUNKS), mixture, SimpleAveragingAlgorithm())
    return mixture if how == "dynamic" else MixtureSchedule(size, [ScheduleEntry(0, mixture)])


def run_case(ctx, state, i):
    from mixtera.core.query.mixture import InferringMixture, StaticMixture
    from mixtera.utils.utils import distribute_by_ratio

    rng = ctx.rng
    # static, chunk size taken directly and adjusted later by a schedule
    for _ in range(3):
        n = rng.choice([1, 2, 3, 5, 8, 20, 60])
        doms, w, size = domains(rng, n), weights(rng, n), rng.choice(CHUNKS)
        if abs(sum(w) - 1) > 9.9e-4:
            continue
        shares = {d: Fraction(x) for d, x in zip(doms, w)}
        ctx.note(kind="static", chunk_size=size, shares=w)
        rows = canon(StaticMixture(size, {jobs.key_of(d): x for d, x in zip(doms, w)}, strict=rng.random() < 0.5).mixture_in_rows())
        judge(ctx, "static", rows, shares, size)
        other = rng.choice(CHUNKS)
        m = StaticMixture(other, {jobs.key_of(d): x for d, x in zip(doms, w)})
        judge(ctx, "adjusted", canon(wrap(rng, size, m).mixture_in_rows()), shares, size)
        ctx.sample(dict(kind="static", chunk_size=size, weights=w[:6], rows=[rows.get(d) for d in doms[:6]]))
    # hierarchical
    for _ in range(2):
        node, leaves = tree(rng, ["topic", "language", "license", "year"], rng.choice([1, 2, 2, 3]))
        size = rng.choice(CHUNKS)
        ctx.note(kind="hierarchical", chunk_size=size, leaves={str(k): float(v) for k, v in leaves.items()})
        from mixtera.core.query.mixture import HierarchicalStaticMixture

        m = HierarchicalStaticMixture(size, node())
        # the statement promises the product of shares up to rounding; the repository's rounding is within one row
        judge(ctx, "hierarchical", canon(m.mixture_in_rows()), leaves, size)
        m, size = HierarchicalStaticMixture(rng.choice(CHUNKS), node()), rng.choice(CHUNKS)
        judge(ctx, "adjusted", canon(wrap(rng, size, m).mixture_in_rows()), leaves, size)
    # inferred from an index
    from mixtera.core.datacollection.index.index_utils import infer_mixture_from_chunkerindex

    n = rng.choice([1, 2, 3, 7, 20])
    doms = domains(rng, n)
    index, mass = {}, {}
    for d in doms:
        per_ds: dict = {}
        total = 0
        for ds in range(rng.choice([1, 2])):
            for f in range(rng.choice([1, 3])):
                at, ivs = rng.randrange(50), []
                for _ in range(rng.choice([1, 2, 4])):
                    ln = rng.choice([1, 2, 5, 100, 12345])
                    ivs.append((at, at + ln))
                    total += ln
                    at += ln + rng.randrange(1, 5)
                per_ds.setdefault(ds, {})[ds * 10 + f] = ivs
        index[jobs.key_of(d)] = per_ds
        mass[d] = Fraction(total)
    size = rng.choice(CHUNKS)
    m = InferringMixture(size)
    m.process_index(index)
    judge(ctx, "inferred", canon(m.mixture_in_rows()), mass, size)
    m, size = InferringMixture(rng.choice(CHUNKS)), rng.choice(CHUNKS)
    if rng.random() < 0.3:  # used before; every execution informs its mixture about the data
        m.process_index(index)
    m = wrap(rng, size, m)
    m.process_index(index)
    judge(ctx, "adjusted", canon(m.mixture_in_rows()), mass, size)
    total, frac = infer_mixture_from_chunkerindex(index)
    ctx.check(total == sum(mass.values()), "inferred total differs from the number of samples", "infer-total", total=total)
    for d in doms:
        f = {gen.key_tuple(k): v for k, v in frac.items()}[d]
        ctx.check(abs(Fraction(f) - mass[d] / sum(mass.values())) < Fraction(1, 10**9), "inferred share differs from the fraction of samples", "infer-share")
    # ratios
    for _ in range(4):
        k = rng.choice([1, 2, 3, 5, 11, 40])
        parts = [rng.randrange(0, 30) for _ in range(k)]
        if not sum(parts):
            parts[0] = 1
        ratios = [p / sum(parts) for p in parts]
        n = rng.choice([0, 1, 2, 3, 10, 97, 1000, 65537])
        ctx.note(kind="ratios", n=n, ratios=ratios)
        out = distribute_by_ratio(n, list(ratios))
        ctx.check(len(out) == k and all(x >= 0 for x in out) and sum(out) == n, f"distributing {n} by ratio hands out {sum(out)}", "ratio-sum", out=out)
        for p, x in zip(parts, out):
            ctx.check(abs(Fraction(p, sum(parts)) * n - x) < 1 + Fraction(1, 10**6), "a bucket is off its ratio by a whole unit", "ratio-share", out=out)
        ctx.evaluated()
        ctx.count("ratios")
        ctx.distinct("ratios", n, parts)
    refuse(ctx, rng)


def refuse(ctx, rng):
    """Invalid shares must raise."""
    from mixtera.core.query.mixture import HierarchicalStaticMixture, StaticMixture
    from mixtera.core.query.mixture.hierarchical_static_mixture import Component, MixtureNode

    n = rng.choice([1, 2, 3])
    doms = domains(rng, n)
    kind = rng.randrange(5)
    w = [1.0 / n] * n
    node = None
    if kind == 0:
        w[0] += rng.choice([0.01, 0.5, 7.0])
    elif kind == 1:
        w[0] -= rng.choice([0.01, 0.2])
    elif kind == 2:
        if n < 2:
            doms, w = domains(rng, 2), [0.5, 0.5]
        w[0], w[1] = -0.25, w[1] + w[0] + 0.25
    elif kind == 3:
        node = MixtureNode("topic", [Component(["a"], 0.5), Component(["b"], 0.5 + rng.choice([0.05, 0.4, -0.2]))])
    else:
        node = MixtureNode("topic", [Component(["a"], 1.25), Component(["b"], -0.25)])
    ctx.note(kind="refuse", variant=kind, weights=w)
    try:
        m = HierarchicalStaticMixture(10, node) if node else StaticMixture(10, {jobs.key_of(d): x for d, x in zip(doms, w)})
    except (ValueError, AssertionError, RuntimeError):
        ctx.count("refused")
        ctx.evaluated()
        return
    ctx.fail("invalid shares were accepted", "accepts-invalid", rows={str(k): v for k, v in m.mixture_in_rows().items()})


def tree(rng, props, depth):
    """A random hierarchy; returns a builder and the exact leaf shares."""
    from mixtera.core.query.mixture.hierarchical_static_mixture import Component, MixtureNode

    prop, rest = props[0], props[1:]
    n = rng.choice([1, 2, 2, 3, 4])
    cents = sorted(rng.sample(range(1, 100), n - 1)) if n > 1 else []
    ws = [(b - a) / 100 for a, b in zip([0] + cents, cents + [100])]
    if rng.random() < 0.3:
        ws = [1.0 / n] * n
    subs, leaves = [], {}
    for j in range(n):
        vals = [f"{prop}{j}"] if rng.random() < 0.7 else [f"{prop}{j}b", f"{prop}{j}a"]
        sub = None
        if depth > 1 and rng.random() < 0.6:
            sub, subleaves = tree(rng, rest, depth - 1)
            for d, s in subleaves.items():
                leaves[tuple(sorted(d + ((prop, tuple(sorted(vals))),)))] = Fraction(ws[j]) * s
        else:
            leaves[((prop, tuple(sorted(vals))),)] = Fraction(ws[j])
        subs.append((vals, ws[j], sub))

    def build():
        return MixtureNode(prop, [Component(list(v), x, s() if s else None) for v, x, s in subs])

    return build, leaves
