"""Jobs over random worlds: mixtures with an independent specification, and traces of the chunks they produce."""
import random
from dataclasses import dataclass, field

from vh import acc, gen


@dataclass
class MixSpec:
    kind: str                       # arbitrary | static | inferring | hierarchical
    chunk_size: int
    strict: bool = True
    shares: dict = field(default_factory=dict)  # domain (canonical tuple) -> weight; empty for arbitrary / inferring
    order: list = field(default_factory=list)
    tree: object = None

    def describe(self):
        return dict(kind=self.kind, chunk_size=self.chunk_size, strict=self.strict,
                    shares={str(k): v for k, v in self.shares.items()})


def matches(domain: tuple, sample_domain: tuple) -> bool:
    have = dict(sample_domain)
    return all(k in have and (set(vals) & set(have[k]) or not vals and not have[k]) for k, vals in domain)


def overlapping(domains) -> bool:
    """Whether some sample could be claimed by two of the domains (conservative)."""
    ds = list(domains)
    for i, a in enumerate(ds):
        for b in ds[i + 1:]:
            da, db = dict(a), dict(b)
            if all(set(da[k]) & set(db[k]) for k in set(da) & set(db)):
                return True
    return False


def claimed_twice(domains, sample_domains) -> bool:
    return any(sum(matches(d, s) for d in domains) > 1 for s in sample_domains)


def split_weights(rng: random.Random, n: int, nice: bool) -> list[float]:
    if nice:
        cuts = sorted(rng.sample(range(1, 20), n - 1)) if n > 1 else []
        parts = [b - a for a, b in zip([0] + cuts, cuts + [20])]
        return [p / 20 for p in parts]
    raw = [rng.random() ** rng.choice([1, 3]) + 1e-6 for _ in range(n)]
    s = sum(raw)
    return [r / s for r in raw]


def random_domains(rng: random.Random, sample_domains: list, n: int, allow_overlap: bool) -> list:
    """Domains that occur in the data: full ones, projections, and unions of values."""
    pool = sorted(set(d for d in sample_domains if d))
    out: list = []
    for _ in range(40):
        if len(out) >= n or not pool:
            break
        d = rng.choice(pool)
        if rng.random() < 0.4 and len(d) > 1:
            d = tuple(sorted(rng.sample(d, rng.randrange(1, len(d)))))
        if rng.random() < 0.25:
            k, vals = rng.choice(d)
            others = sorted({v for s in pool for kk, vv in s if kk == k for v in vv} - set(vals))
            if others:
                d = tuple(sorted([(kk, vv) for kk, vv in d if kk != k] + [(k, tuple(sorted(set(vals) | {rng.choice(others)})))]))
        if d in out:
            continue
        if not allow_overlap and claimed_twice(out + [d], pool):
            continue
        out.append(d)
    return out


def random_mixture(rng: random.Random, sample_domains: list, kinds=("arbitrary", "static", "static", "static", "inferring"),
                   overlap: bool = False, chunk_sizes=(1, 2, 3, 5, 7, 10, 16, 29), strict=None, max_domains=4) -> MixSpec:
    kind = rng.choice(kinds)
    cs = rng.choice(chunk_sizes)
    st = rng.random() < 0.5 if strict is None else strict
    if kind in ("arbitrary", "inferring"):
        return MixSpec(kind, cs, st)
    doms = random_domains(rng, sample_domains, rng.randrange(1, max_domains + 1), overlap)
    if not doms:
        return MixSpec("arbitrary", cs, st)
    w = split_weights(rng, len(doms), rng.random() < 0.6)
    return MixSpec("static", cs, st, dict(zip(doms, w)), list(doms))


def key_of(domain: tuple):
    from mixtera.core.query.mixture import MixtureKey

    return MixtureKey({k: list(v) for k, v in domain})


def make_mixture(spec: MixSpec):
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, StaticMixture

    if spec.kind == "arbitrary":
        return ArbitraryMixture(chunk_size=spec.chunk_size)
    if spec.kind == "inferring":
        return InferringMixture(chunk_size=spec.chunk_size, strict=spec.strict)
    return StaticMixture(chunk_size=spec.chunk_size, mixture={key_of(d): spec.shares[d] for d in spec.order}, strict=spec.strict)


@dataclass
class ChunkTrace:
    mixture_id: int
    rows: dict          # domain -> list of (path, row)
    reported: dict | None  # domain -> rows, as the chunk reports it
    ids: dict           # domain -> id

    def size(self) -> int:
        return sum(len(v) for v in self.rows.values())


def trace_chunk(chunk) -> ChunkTrace:
    mix = acc.mixture_rows(chunk) if getattr(chunk, "_mixture", True) is not None else None
    return ChunkTrace(chunk.mixture_id, acc.chunk_rows(chunk),
                      None if mix is None else {gen.key_tuple(k): v for k, v in mix.items()},
                      {gen.key_tuple(k): v for k, v in acc.key_ids(chunk).items()})


def location(world: gen.World, s: gen.Sample) -> tuple:
    ds = next(d for d in world.datasets if d.name == s.ds)
    base = ds.path if not ds.single_file else ds.path.parent
    return (str(base / s.file), s.idx)


def drain(ctx, client, job: str, limit: int, on_chunk=None, dp=0, node=0, worker=0) -> list[ChunkTrace]:
    """All chunks of a job; more chunks than samples could fill are a violation by themselves."""
    out = []
    for chunk in acc.chunks_of(client, job, dp, node, worker):
        t = trace_chunk(chunk)
        out.append(t)
        if on_chunk:
            on_chunk(chunk, t)
        ctx.check(len(out) <= limit, "more chunks than there are samples", "endless", chunks=len(out))
    return out


def shares_ok(rows: dict, shares: dict, size: int) -> str | None:
    """Row counts against exact shares: sum, sign and distance."""
    if sum(rows.values()) != size:
        return f"row counts sum up to {sum(rows.values())}, chunk size is {size}"
    for d, w in shares.items():
        r = rows.get(d, 0)
        if r < 0 or abs(r - w * size) >= 1 + 1e-6:
            return f"domain {d} has {r} rows, exact share is {w * size}"
    return None
