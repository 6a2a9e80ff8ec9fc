"""P05: every chunk realises the mixture in force."""
import math
from collections import Counter

import numpy as np

from vh import acc, gen, jobs, train
from vh.props import p17
from vh.props.p01 import build_world

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: per-chunk oracle (exact domain counts, domain membership) on random jobs"
NOTE = ("held on the executed jobs: the domain counts and the metadata of every sample of every chunk are compared with shares "
        "computed independently of the repository's rounding")
RULE = ("an evaluation is one chunk judged against the mixture; non-trivial: the mixture has at least two domains; distinct by "
        "mixture description and chunk content")
ASSUMPTIONS = ["a domain's share is chunk size times weight, up to rounding by less than one row, adding up to the chunk size"]
CASES = {"quick": 100, "thorough": 2400}
BUDGET = {"quick": 70, "thorough": 620}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 40
MUST_OBSERVE = ["chunks_strict", "chunks_best_effort", "chunks_short_domain", "samples_streamed", "large_chunks", "large_jobs_just_short", "chunks_after_change", "best_effort_substituted", "reused_mixtures"]


def setup(ctx):
    from vh.boot import boot

    boot()


def large(ctx):
    """Chunks of thousands of rows, of domains that are a few rows short of filling the last one."""
    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    langs = rng.sample(["en", "de", "fr", "it"], rng.choice([2, 3]))
    size = rng.choice([1000, 1500, 2048, 3000, 4100])
    shares = jobs.split_weights(rng, len(langs), True)
    spec = jobs.MixSpec("static", size, True, {(("language", (v,)),): x for v, x in zip(langs, shares)}, [(("language", (v,)),) for v in langs])
    rows = {gen.key_tuple(k): v for k, v in jobs.make_mixture(spec).mixture_in_rows().items()}
    n = rng.choice([1, 2])
    short = rng.choice(langs)
    missing = rng.choice([1, 1, 2, 3, 0])
    metas = [{"language": v} for v in langs for _ in range(max(0, rows.get((("language", (v,)),), 0) * n + (rng.choice([0, 1, 7]) if v != short else -missing)))]
    rng.shuffle(metas)
    ctx.check(w.register(w.make_dataset("d", [gen.PropSpec("language", "STRING", False, False, tuple(langs))], [len(metas)], metas=[metas])), "registration failed")
    where = {jobs.location(w, s): s for s in w.samples()}
    totals, used = Counter(gen.domain_of(s.meta) for s in w.samples()), Counter()
    ctx.note(mixture=spec.describe(), rows=rows, selected={str(k): v for k, v in totals.items()})
    with ctx.cpu_limit(40, "producing the chunks of a job"):
        ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(jobs.make_mixture(spec))), "execute_query reported failure")
        trace = jobs.drain(ctx, w.client, "j", 10, lambda chunk, t: judge_chunk(ctx, spec, spec.shares, t, where, totals, used, rows))
    want = min((totals[d] // v for d, v in rows.items() if v), default=0)
    ctx.check(len(trace) == want, f"a strict job gives {len(trace)} chunks, its domains suffice for {want}", "share")
    ctx.count("large_chunks", len(trace))
    ctx.count("large_jobs_just_short", missing > 0 and rows.get((("language", (short,)),), 0) > 0)
    w.close()


def changing(ctx):
    """Jobs whose mixture changes (by a schedule or by a mixing algorithm) and that use up domains under strict and best-effort mixtures."""
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry
    from mixtera.network.client.client_feedback import ClientFeedback

    rng = ctx.rng
    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([20, 45, 70]))
    where = {jobs.location(w, s): s for s in w.samples()}
    totals, used = Counter(gen.domain_of(s.meta) for s in w.samples()), Counter()
    size = rng.choice([4, 7, 10, 16])
    steps = []
    if rng.random() < 0.5:
        strict = rng.random() < 0.35
        parts = train.random_parts(rng, langs, k=rng.randrange(2, len(langs) + 1))
        seed, kind = rng.randrange(1000), rng.choice(["echo", "echo", "avg"])
        mixture = DynamicMixture(size, train.static(parts, rng.choice([size, size, 3]), strict), p17.make_alg(kind, seed), strict=strict)
        model = None
        ctx.note(kind="dynamic", algorithm=kind, parts=parts, strict=strict, chunk_size=size)
    else:
        for k in range(rng.choice([2, 3, 4])):
            steps.append((k, train.random_parts(rng, langs, k=rng.randrange(1, len(langs) + 1)), rng.random() < 0.4))
        mixture = MixtureSchedule(size, [ScheduleEntry(k, train.static(p, rng.choice([size, size, 3]), st)) for k, p, st in steps])
        ctx.note(kind="schedule", steps=steps, chunk_size=size)
    ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(mixture)), "execute_query reported failure")
    stream, mid, ids, n, now = acc.chunks_of(w.client, "j"), -1, {}, 0, 0
    shares = train.shares_of(steps[0][1] if steps else parts)
    strict = steps[0][2] if steps else strict
    for n in range(sum(totals.values()) // size + 3):
        if n and rng.random() < 0.5:
            if steps:
                now = min(now + 1, len(steps) - 1)
                w.client.process_feedback("j", ClientFeedback(training_steps=now, mixture_id=mid))
                shares, strict = train.shares_of(steps[now][1]), steps[now][2]
            else:
                own = {ids[d] for d in train.shares_of(parts)}
                counts = np.array([rng.choice([0, 64, 512]) if k in own else 0 for k in range(max(own) + 1)], dtype=np.int64)
                losses = (np.array([rng.random() * 9 + 0.1 for _ in counts]) * counts).astype(np.float32)
                w.client.process_feedback("j", ClientFeedback(training_steps=n, mixture_id=mid, losses=losses.copy(), counts=counts.copy()))
                model.report(losses, counts, mid)
                shares = model.shares
            ctx.count("mixture_changes_sent")
        left = {d: sum(totals[sd] - used[sd] for sd in totals if jobs.matches(d, sd)) for d, x in shares.items() if x > 0}
        with ctx.cpu_limit(20, "producing one chunk", "endless"):
            chunk = next(stream, None)
        plenty = all(left[d] >= math.ceil(x * size - 1e-6) for d, x in shares.items() if x > 0) if strict else sum(left.values()) >= size
        if chunk is None:
            ctx.note(left={str(k): v for k, v in left.items()}, shares={str(k): v for k, v in shares.items()}, chunk=n, strict=strict)
            ctx.check(not plenty, "a job whose mixture changes ends although there is data for a chunk of the mixture in force", "ends")
            break
        t = jobs.trace_chunk(chunk)
        before = Counter(used)
        spec = jobs.MixSpec("static", size, strict, {d: x for d, x in shares.items() if x > 0})
        ctx.note(chunk=n, strict=strict, reports=now)
        judge_chunk(ctx, spec, spec.shares, t, where, totals, used, None)
        ctx.check(all(used[sd] <= totals[sd] for sd in totals), "a job delivers more samples of a domain than there are", "invented", used=str(used), totals=str(totals))
        ids.update(t.ids)
        mid = t.mixture_id
        if n == 0 and not steps:
            exact = {d: v / size for d, v in (t.reported or {}).items()}
            model = p17.Model(kind, seed, exact, ids)
            model.shares = shares
            if set(exact) != set(shares) or not set(shares) <= set(ids):
                break  # a share is rounded to nothing
        ctx.count("chunks_after_change" if now or n and not steps else "chunks_before_change")
        ctx.count("best_effort_substituted", not strict and any(left[d] < int(x * size) for d, x in spec.shares.items()) and before != used)
    w.close()


def run_case(ctx, state, i):
    if i % 10 == 9:
        return large(ctx)
    if i % 3 == 1:
        for _ in range(4):
            changing(ctx)
            ctx.case_log.clear()
        return None
    rng = ctx.rng
    w = build_world(ctx, rng, formats=("jsonl",))
    cols = w.columns()
    allsamples = w.samples()
    where = {jobs.location(w, s): s for s in allsamples}
    inferring = jobs.make_mixture(jobs.MixSpec("inferring", rng.choice([5, 8, 16]), rng.random() < 0.5))
    for q in range(5):
        plan = gen.random_query(rng, cols) if rng.random() < 0.4 else []
        sel = [s for s in allsamples if gen.selects(plan, s.meta, cols)]
        doms = [gen.domain_of(s.meta) for s in sel]
        if not sel:
            continue
        spec = jobs.random_mixture(rng, doms, kinds=("static", "static", "inferring"), overlap=rng.random() < 0.3)
        if spec.kind == "arbitrary":
            continue
        ctx.note(plan=plan, mixture=spec.describe(), selected=dict(Counter(map(str, doms))))
        if spec.kind == "inferring" and q and rng.random() < 0.5:  # the same object as for an earlier query
            mixture, spec.chunk_size, spec.strict = inferring, inferring.chunk_size, inferring.strict
            ctx.count("reused_mixtures")
        else:
            mixture = jobs.make_mixture(spec)
        if spec.kind == "inferring":
            inferring = mixture
        job = f"j{q}"
        stream = rng.random() < 0.5
        shares = spec.shares if spec.kind == "static" else {d: c / len(sel) for d, c in Counter(doms).items()}
        given = {gen.key_tuple(k): v for k, v in mixture.mixture_in_rows().items()} if spec.kind == "static" else None
        used: Counter = Counter()
        totals = Counter(doms)

        def judge(chunk, t):
            judge_chunk(ctx, spec, shares, t, where, totals, used, given)
            if stream:
                stream_chunk(ctx, w, job, chunk, t, where)

        with ctx.cpu_limit(25, "producing the chunks of a job"):
            ctx.check(w.client.execute_query(gen.build_query(job, plan, rng), acc.exec_args(mixture)), "execute_query reported failure")
            trace = jobs.drain(ctx, w.client, job, 2 * len(sel) + 5, judge)
        if trace:
            ctx.sample(dict(mixture=spec.describe(), chunks=len(trace), first={str(d): len(r) for d, r in trace[0].rows.items()}))
    w.close()


def judge_chunk(ctx, spec, shares, t, where, totals, used, given):
    counts = {d: len(r) for d, r in t.rows.items() if r}
    detail = dict(counts={str(k): v for k, v in counts.items()}, shares={str(k): v for k, v in shares.items()})
    ctx.check(set(counts) <= set(shares), "a chunk contains a domain that is not in the mixture", "foreign-domain", **detail)
    for d, rows in t.rows.items():
        for r in rows:
            s = where.get(r)
            ctx.check(s is not None, "a chunk contains an unknown row", "invented", row=r)
            sd = gen.domain_of(s.meta)
            ctx.check(jobs.matches(d, sd), "a sample is reported under a domain its metadata do not match", "wrong-domain",
                      domain=d, sample=sd, row=r)
            used[sd] += 1
    size = sum(counts.values())
    ctx.check(size == spec.chunk_size, f"a chunk holds {size} samples instead of {spec.chunk_size}", "chunk-size", **detail)
    if spec.strict:
        bad = jobs.shares_ok(counts, shares, spec.chunk_size)
        ctx.check(bad is None, f"a chunk of a strict job does not hold the domain shares: {bad}", "share", **detail)
        ctx.check(given is None or counts == {d: v for d, v in given.items() if v}, "a chunk differs from the mixture's row counts", "share", **detail)
        ctx.count("chunks_strict")
    else:
        for d, w in shares.items():
            have = counts.get(d, 0)
            floor = int(w * spec.chunk_size + 1e-9)
            if have < floor:
                left = sum(totals[sd] - used[sd] for sd in totals if jobs.matches(d, sd))
                ctx.check(left == 0, "a best-effort chunk gives a domain less than its share although it has data left", "short-domain",
                          domain=d, left=left, **detail)
                ctx.count("chunks_short_domain")
        ctx.count("chunks_best_effort")
    if t.reported is not None:
        rep = {d: v for d, v in t.reported.items() if v}
        ctx.check(rep == counts, "the mixture reported with a chunk is not the one it contains", "reported-mixture",
                  reported={str(k): v for k, v in rep.items()}, **detail)
    ctx.evaluated()
    if len(shares) > 1:
        ctx.distinct(spec.describe(), sorted((d, tuple(r)) for d, r in t.rows.items()))


def stream_chunk(ctx, w, job, chunk, t, where):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    chunk.configure_result_streaming(client=w.client, args=ResultStreamingArgs(job_id=job, chunk_reading_prefetch_first_sample=False))
    ids = {i: d for d, i in t.ids.items()}
    got = Counter((ids.get(kid), text) for _, kid, text in chunk)
    want = Counter((d, where[r].text) for d, rows in t.rows.items() for r in rows)
    ctx.check(got == want, "reading the chunk does not give its samples under its domains", "stream-domains",
              missing=list((want - got).items())[:4], extra=list((got - want).items())[:4])
    ctx.count("samples_streamed", sum(got.values()))
