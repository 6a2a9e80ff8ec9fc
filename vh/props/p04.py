"""P04: chunks deliver data at most once and stop only when they must."""
from collections import Counter

from vh import acc, gen, jobs, train
from vh.props.p01 import build_world

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: conservation checker over the recorded chunk history of random jobs, also of jobs whose mixture changes to and fro between "
             "ones that can and ones that cannot be satisfied")
NOTE = ("held on the executed jobs: every chunk of every job is drained and its rows checked for duplicates, provenance and, at the "
        "end of the stream, for whether another chunk was possible; CPU-time watchdog for termination")
RULE = ("an evaluation is one job drained to its end (random collection, query, mixture, chunk size, strictness); non-trivial: "
        "the job produced at least two chunks; distinct by mixture description and chunk history")
ASSUMPTIONS = ["the exact end of a strict job is judged only where no sample belongs to two domains of the mixture",
               "with overlapping domains only duplication, provenance and best-effort exhaustion are judged"]
CASES = {"quick": 72, "thorough": 1900}
BUDGET = {"quick": 70, "thorough": 620}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 40
MUST_OBSERVE = ["jobs_arbitrary", "jobs_strict_static", "jobs_best_effort", "chunks", "jobs_changing", "refused_requests", "requests_after_refusals", "jobs_with_many_refusals"]


def setup(ctx):
    from vh.boot import boot

    boot()


def run_case(ctx, state, i):
    if i % 4 == 3:
        return changing_job(ctx)
    rng = ctx.rng
    w = build_world(ctx, rng, formats=("jsonl",))
    cols = w.columns()
    allsamples = w.samples()
    where = {jobs.location(w, s): s for s in allsamples}
    for q in range(5):
        plan = gen.random_query(rng, cols) if rng.random() < 0.5 else []
        sel = [s for s in allsamples if gen.selects(plan, s.meta, cols)]
        doms = [gen.domain_of(s.meta) for s in sel]
        if not sel:
            continue
        overlap = rng.random() < 0.25
        spec = jobs.random_mixture(rng, doms, overlap=overlap)
        ctx.note(plan=plan, mixture=spec.describe(), selected=dict(Counter(map(str, doms))))
        mixture = jobs.make_mixture(spec)
        job = f"j{q}"
        with ctx.cpu_limit(20, "producing the chunks of a job"):
            ok = w.client.execute_query(gen.build_query(job, plan, rng), acc.exec_args(mixture))
            ctx.check(ok, "execute_query reported failure")
            trace = jobs.drain(ctx, w.client, job, 2 * len(sel) + 5)
        check_history(ctx, spec, trace, sel, where, mixture)
        ctx.evaluated()
        ctx.count("chunks", len(trace))
        ctx.count("jobs_arbitrary" if spec.kind == "arbitrary" else
                  ("jobs_inferring" if spec.kind == "inferring" else ("jobs_strict_static" if spec.strict else "jobs_best_effort")))
        if len(trace) > 1:
            ctx.distinct(spec.describe(), [sorted((d, len(r)) for d, r in t.rows.items()) for t in trace])
        ctx.sample(dict(mixture=spec.describe(), chunks=len(trace), selected=len(sel), delivered=sum(t.size() for t in trace)))
    w.close()


def changing_job(ctx):
    """A job whose mixture changes: chunks are refused exactly while the mixture in force cannot be satisfied, and nothing is lost by that."""
    from mixtera.core.query.mixture import ArbitraryMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry
    from mixtera.network.client.client_feedback import ClientFeedback

    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    langs = rng.sample(["en", "de", "fr", "it", "Go"], rng.choice([2, 3, 4]))
    sizes = [rng.choice([3, 8, 20, 60, 150]) for _ in langs]
    sizes[0] = rng.choice([60, 150, 300])
    metas = [{"language": v} for v, n in zip(langs, sizes) for _ in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(metas)
    n = rng.choice([1, 2, 4])
    parts = [metas[k::n] for k in range(n)]
    ctx.check(w.register(w.make_dataset("d", [gen.PropSpec("language", "STRING", False, False, tuple(langs))], [len(p) for p in parts], metas=parts)), "registration failed")
    size = rng.choice([3, 5, 10, 16])
    rounds = rng.choice([4, 12, 30])
    entries, given = [], []
    for r in range(rounds):
        if rng.random() < 0.12:
            entries.append((None, None, False))
            given.append(ScheduleEntry(r, ArbitraryMixture(chunk_size=size)))
            continue
        ps = train.random_parts(rng, langs, joint=False)
        strict = rng.random() < 0.7
        m = train.static(ps, size, strict)
        rows = {gen.key_tuple(k): v for k, v in m.mixture_in_rows().items()}
        entries.append((rows, list(train.shares_of(ps)), strict))
        given.append(ScheduleEntry(r, train.static(ps, size, strict)))
    entries.append((None, None, False))
    given.append(ScheduleEntry(rounds, ArbitraryMixture(chunk_size=size)))
    workers = rng.choice([1, 1, 3])
    ctx.note(langs=dict(zip(langs, sizes)), chunk_size=size, entries=entries, workers=workers)
    with ctx.cpu_limit(20, "executing the query"):
        ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(MixtureSchedule(size, given), workers=workers)), "execute_query reported failure")
    watch = train.Watch(ctx, w, "j")
    refusals = in_a_row = 0
    for r, (rows, doms, strict) in enumerate(entries):
        ctx.check(w.client.process_feedback("j", ClientFeedback(training_steps=r, mixture_id=0)) is True, "a report is not accepted", "report")
        for _ in range(rng.choice([1, 1, 2, 3]) if r < rounds else 10 ** 6):
            left = {} if doms is None else {d: sum(c for sd, c in watch.left.items() if jobs.matches(d, sd)) for d in doms}
            total = sum(watch.left.values()) if doms is None else sum(left.values())
            possible = total > 0 if doms is None else (all(left[d] >= rows.get(d, 0) for d in doms) if strict else total >= size)
            if doms is None and not possible and r < rounds:
                break  # an exhausted unconstrained mixture ends the job
            if not possible and in_a_row >= 8 and r < rounds:
                break  # after ten refusals in a row the job ends
            ctx.note(round=r, rows=rows, strict=strict, left={str(k): v for k, v in watch.left.items()}, refusals=refusals, refusals_in_a_row=in_a_row)
            with ctx.cpu_limit(20, "producing one chunk", "endless"):
                chunk = next(acc.chunks_of(w.client, "j", 0, 0, rng.randrange(workers)), None)
            ctx.evaluated()
            if not possible:
                ctx.check(chunk is None, "a chunk is produced although the mixture in force cannot be satisfied", "not-in-force")
                if doms is None:
                    break
                refusals += 1
                in_a_row += 1
                ctx.count("refused_requests")
                continue
            ctx.check(chunk is not None, "no chunk is produced although the mixture in force can be satisfied", "early-end")
            t = jobs.trace_chunk(chunk)
            ctx.check(0 < t.size() <= size, f"a chunk holds {t.size()} samples", "empty-chunk")
            watch.account(t)
            watch.n += 1
            ctx.count("chunks")
            ctx.count("requests_after_refusals", in_a_row > 0)
            in_a_row = 0
    ctx.check(not sum(watch.left.values()), "a job whose last mixture is unconstrained ended before all selected samples were delivered", "arbitrary-incomplete",
              remaining={str(k): v for k, v in watch.left.items() if v})
    ctx.count("jobs_changing")
    ctx.count("jobs_with_many_refusals", refusals > 11)
    ctx.distinct("changing", sizes, size, refusals, watch.n)
    ctx.sample(dict(kind="changing", chunk_size=size, rounds=rounds, refusals=refusals, chunks=watch.n))
    w.close()


def check_history(ctx, spec, trace, sel, where, mixture):
    """Conservation: every delivered row is selected, delivered once; the end is justified."""
    selected = {s.text for s in sel}
    seen: dict = {}
    for n, t in enumerate(trace):
        ctx.check(t.size() > 0, "an empty chunk was delivered", "empty-chunk", chunk=n)
        for d, rows in t.rows.items():
            for r in rows:
                s = where.get(r)
                ctx.check(s is not None and s.text in selected, "a chunk contains a sample that was not selected", "invented", row=r, chunk=n)
                ctx.check(r not in seen, "a sample was put into two chunks (or twice into one)", "duplicate", row=r, chunks=(seen.get(r), n))
                seen[r] = n
    remaining = Counter(gen.domain_of(s.meta) for s in sel if jobs_loc(where, s) not in seen)
    if spec.kind == "arbitrary":
        ctx.check(not remaining, "an unconstrained job ended before all selected samples were delivered", "arbitrary-incomplete",
                  remaining={str(k): v for k, v in remaining.items()})
        return
    if spec.kind == "inferring":
        total = Counter(gen.domain_of(s.meta) for s in sel)
        shares = {d: c / len(sel) for d, c in total.items()}
    else:
        shares = spec.shares
    left = {d: sum(c for sd, c in remaining.items() if jobs.matches(d, sd)) for d in shares}
    union = sum(c for sd, c in remaining.items() if any(jobs.matches(d, sd) for d in shares))
    twice = jobs.claimed_twice(list(shares), set(gen.domain_of(s.meta) for s in sel))
    rows = {gen.key_tuple(k): v for k, v in mixture.mixture_in_rows().items()}
    if spec.strict:
        if not twice:
            ctx.check(any(left[d] < rows.get(d, 0) for d in shares), "a strict job ended although every domain could still supply its share",
                      "early-end", left={str(k): v for k, v in left.items()}, rows={str(k): v for k, v in rows.items()})
            ctx.count("ends_justified")
    else:
        ctx.check(union < spec.chunk_size, "a best-effort job ended although the domains together could fill another chunk",
                  "early-end", left={str(k): v for k, v in left.items()}, rows={str(k): v for k, v in rows.items()})
        ctx.count("ends_justified")


def jobs_loc(where, s, _cache={}):
    key = id(where)
    if key not in _cache:
        _cache.clear()
        _cache[key] = {v.text: k for k, v in where.items()}
    return _cache[key][s.text]
