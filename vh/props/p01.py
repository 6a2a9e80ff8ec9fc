"""P01: a query selects exactly the matching samples, under their own metadata."""
from collections import Counter

from vh import acc, gen

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: randomised collections and query plans, online oracle per delivered sample"
NOTE = ("held on the executed random collections and query plans: every delivered sample and its domain is compared with an "
        "independent three-valued evaluation of the plan; other plans and contents are not covered")
RULE = ("a case is one random collection (1-3 datasets of 1-4 files, jsonl/parquet/web, string/enum, single/multi-valued, "
        "nullable metadata) with several random query plans; an evaluation is one query compared sample by sample with an "
        "independent evaluation; non-trivial: neither nothing nor everything is selected, distinct by plan and result")
ASSUMPTIONS = ["a sample without a value satisfies only explicit tests for a missing value (SQL semantics)",
               "order comparisons on multi-valued properties are not generated (unsupported by the repository)"]
CASES = {"quick": 80, "thorough": 1800}
BUDGET = {"quick": 60, "thorough": 600}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 90
MUST_OBSERVE = ["queries_nontrivial", "samples_delivered"]


def setup(ctx):
    from vh.boot import boot

    boot()


def build_world(ctx, rng, hostile=False, formats=("jsonl", "jsonl", "parquet", "web")):
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    shared = gen.random_props(rng)
    for d in range(rng.choice([1, 1, 2, 3])):
        props = shared if rng.random() < 0.6 else [p for p in gen.random_props(rng) if p.name not in {q.name for q in shared}] or shared
        known = w.columns()
        props = [known.get(p.name, p) for p in props]
        sizes = [rng.choice([1, 2, 5, 9, 17, 30]) for _ in range(rng.choice([1, 1, 2, 4]))]
        if rng.random() < 0.1:
            sizes.append(0)
        ds = w.make_dataset(f"ds{d}", props, sizes, fmt=rng.choice(formats), hostile=hostile)
        ctx.check(w.register(ds) is True, f"registration of {ds.name} failed")
    return w


def run_case(ctx, state, i):
    from mixtera.core.query.mixture import ArbitraryMixture

    rng = ctx.rng
    w = build_world(ctx, rng)
    cols = w.columns()
    all_samples = w.samples()
    by_text = {s.text: s for s in all_samples}
    for q in range(6 if ctx.quick else 10):
        plan = gen.random_query(rng, cols)
        want = Counter(s.text for s in all_samples if gen.selects(plan, s.meta, cols))
        ctx.note(plan=plan, datasets=[(d.name, d.fmt, [(p.name, p.dtype, p.multiple, p.nullable) for p in d.props], len(d.samples)) for d in w.datasets])
        job = f"j{q}"
        query = gen.build_query(job, plan, rng)
        ok = w.client.execute_query(query, acc.exec_args(ArbitraryMixture(chunk_size=rng.choice([1, 3, 10, 1000]))))
        ctx.check(ok is True, "execute_query reported failure")
        got = Counter()
        for chunk in acc.chunks_of(w.client, job):
            chunk.configure_result_streaming(client=w.client, args=_args(job))
            domains = acc.id_to_domain(chunk)
            for _, kid, text in chunk:
                got[text] += 1
                s = by_text.get(text)
                ctx.check(s is not None, "delivered a sample that was never registered", "invented", text=text)
                ctx.check(kid in domains, "sample has an unknown domain id", "unknown-id", kid=kid)
                ctx.check(domains[kid] == gen.domain_of(s.meta), "sample reported under a domain that is not its own metadata",
                          "misattributed", sample=s.ident(), meta=s.meta, domain=domains[kid])
        if got != want:
            ctx.fail(f"query result differs: {sum((want - got).values())} missing, {sum((got - want).values())} too many",
                     "wrong-selection", missing=list((want - got))[:5], extra=list((got - want))[:5],
                     meta=[by_text[t].meta for t in list((want - got) + (got - want))[:5]])
        ctx.evaluated()
        ctx.count("queries")
        ctx.count("samples_delivered", sum(got.values()))
        if 0 < len(want) < len(all_samples):
            ctx.count("queries_nontrivial")
            ctx.distinct(plan, sorted(want))
        ctx.sample(dict(plan=plan, selected=len(want), of=len(all_samples)))
    w.close()


def _args(job):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    return ResultStreamingArgs(job_id=job, chunk_reading_prefetch_first_sample=False)
