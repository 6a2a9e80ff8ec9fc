"""P18: a mixture schedule applies the entry of the current step."""
from collections import Counter

from vh import acc, gen, jobs, proc, srv, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: training steps are reported in hostile orders between the chunks of real jobs; every chunk is judged against the schedule entry "
             "that an independent reading of the schedule puts in force")
NOTE = "held on the executed schedules and orders of reports, with local clients and through a server"
RULE = ("an evaluation is one chunk judged after the reports so far; distinct by the schedule, the highest step reported and the entry in force")
ASSUMPTIONS = ["entries of a schedule start at different steps and are not dynamic mixtures themselves"]
CASES = {"quick": 110, "thorough": 2000}
BUDGET = {"quick": 50, "thorough": 600}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 90
QUIESCE = 60
MUST_OBSERVE = ["chunks_judged", "entry_changes", "late_reports", "repeated_reports", "before_any_start", "skipped_entries", "remote_chunks", "mixture_changes", "arbitrary_entries", "inferring_entries",
                "adjusted_chunk_sizes", "exact_start_reports", "unfilled_entries", "drained_jobs"]
MIN_EVALUATIONS = {"quick": 500, "thorough": 8000}


class State:
    child = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


def in_force(entries, highest):
    best = None
    for start, what in entries:
        if start <= highest and (best is None or start > best[0]):
            best = (start, what)
    return best or min(entries, key=lambda e: e[0])


def scarce(ctx, st, i):
    """Entries that the data cannot fill: the job pauses without losing a sample, and goes on once another entry is in force."""
    from mixtera.core.query.mixture import ArbitraryMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry
    from mixtera.network.client.client_feedback import ClientFeedback

    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    langs = rng.sample(["en", "de", "fr", "it", "Go", "x y"], 3)
    few = rng.choice([1, 2, 4])
    metas = [{"language": v} for v in langs[1:] for _ in range(rng.choice([260, 400]))] + [{"language": langs[0]}] * few
    rng.shuffle(metas)
    n = rng.choice([1, 2, 3])
    ds = w.make_dataset("d", [gen.PropSpec("language", "STRING", False, False, tuple(langs))], [len(metas[k::n]) for k in range(n)], metas=[metas[k::n] for k in range(n)])
    ctx.check(w.register(ds), "registration failed")
    remote = i % 4 == 1
    server, client = None, w.client
    if remote:
        w.close()
        server = srv.Server(st.child, w.home)
        client = server.client()
    try:
        size = rng.choice([8, 13, 20])
        entries, row = [], 0
        for k in range(rng.choice([12, 30, 45])):
            r = rng.random()
            kind = "poor" if r < 0.55 and row < 6 else ("any" if r > 0.85 else "rich")
            row = row + 1 if kind == "poor" else 0
            if kind == "any":
                entries.append((kind, ArbitraryMixture(chunk_size=size), None))
                continue
            parts = [(train.language([langs[1]]), 0.5), (train.language([langs[2]]), 0.5)][: rng.choice([1, 2])]
            if kind == "poor":
                parts = [(train.language([langs[0]]), 0.6)] + [(d, 0.4 / len(parts)) for d, _ in parts]
                rng.shuffle(parts)
            total = sum(x for _, x in parts)
            parts = [(d, x / total) for d, x in parts]
            entries.append((kind, train.static(parts, size, True if kind == "poor" else rng.random() < 0.7), train.shares_of(parts)))
        if entries[0][0] == "poor" and rng.random() < 0.5:
            entries = entries[1:]
        entries.append(("any", ArbitraryMixture(chunk_size=size), None))
        ctx.note(kinds="".join(e[0][0] for e in entries), chunk_size=size, few=few)
        given = [ScheduleEntry(k, m) for k, (_, m, _) in enumerate(entries)]
        rng.shuffle(given)
        ok = client.execute_query(gen.build_query("s", []), acc.exec_args(MixtureSchedule(size, given)))
        ctx.check(ok is True and client.wait_for_execution("s") is True, "the execution fails", "execute")
        watch = train.Watch(ctx, w, "s", None if remote else w.home / "mixture_logs")
        stream = acc.chunks_of(client, "s", 0, 0, 0)
        for k, (kind, _, shares) in enumerate(entries):
            ctx.note(entry=k, kind=kind)
            ok = client.process_feedback("s", ClientFeedback(training_steps=k, mixture_id=0))
            ctx.check(ok is True, f"the report of step {k} is not accepted", "report")
            if kind == "rich" and not watch.available(shares, size):
                continue
            for _ in range(1 if kind == "poor" else rng.choice([1, 1, 2])):
                if kind == "rich" and not watch.available(shares, size):
                    break
                with ctx.cpu_limit(20, "producing one chunk", "endless"):
                    chunk = next(stream, None)
                if kind == "poor":
                    ctx.check(chunk is None, "a strict entry that cannot be filled gives a chunk", "not-in-force")
                    stream = acc.chunks_of(client, "s", 0, 0, 0)
                    ctx.count("unfilled_entries")
                    ctx.evaluated()
                    continue
                ctx.check(chunk is not None or not sum(watch.left.values()), "the job ends although there is data for the entry in force", "ends")
                if chunk is None:
                    return
                watch.judge(chunk, shares, size)
                ctx.count("remote_chunks", remote)
                ctx.distinct("scarce", few, k, kind, size)
        rest = 0
        with ctx.cpu_limit(60, "draining the job", "endless"):
            for chunk in stream:
                watch.judge(chunk, None, size)
                rest += 1
        left = {d: n for d, n in watch.left.items() if n}
        ctx.check(not left, "samples are missing after everything that is left was asked for", "lost", left=left)
        ctx.count("drained_jobs")
        ctx.sample(dict(kinds="".join(e[0][0] for e in entries), chunk_size=size, few=few, chunks=watch.n, rest=rest))
    finally:
        if server is not None:
            server.stop()
        else:
            w.close()


def run_case(ctx, st, i):
    if i % 5 == 3:
        return scarce(ctx, st, i)
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry
    from mixtera.network.client.client_feedback import ClientFeedback

    rng = ctx.rng
    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([120, 250]))
    remote = i % 6 == 5
    server = None
    client = w.client
    if remote:
        w.close()
        server = srv.Server(st.child, w.home)
        client = server.client()
    try:
        for q in range(2):
            size = rng.choice([2, 5, 8, 13, 20])
            scale = rng.choice([1, 1, 10, 1000, 400_000])
            starts = [s * scale for s in rng.sample(range(0, 14), rng.choice([1, 2, 3, 4, 6]))]
            if rng.random() < 0.5:
                starts[0] = 0
            starts = list(dict.fromkeys(starts))
            entries, given = [], []
            for s in starts:
                strict = rng.random() < 0.6
                if rng.random() < 0.12:
                    m, shares = ArbitraryMixture(chunk_size=size), None
                elif rng.random() < 0.15:  # the shares of the data
                    doms = Counter(gen.domain_of(s.meta) for s in w.samples())
                    m, shares = InferringMixture(chunk_size=rng.choice([size, size, 3, 50]), strict=strict), {d: c / sum(doms.values()) for d, c in doms.items()}
                    ctx.count("inferring_entries")
                else:
                    parts = train.random_parts(rng, langs)
                    other = rng.choice([1, 3, 50]) if rng.random() < 0.25 else size
                    if other != size:
                        ctx.count("adjusted_chunk_sizes")
                    m, shares = train.static(parts, other, strict), train.shares_of(parts)
                entries.append((s, shares))
                given.append(ScheduleEntry(s, m))
            ctx.note(schedule=entries, chunk_size=size)
            job = f"j{q}"
            workers = rng.choice([1, 1, 2])
            ok = client.execute_query(gen.build_query(job, []), acc.exec_args(MixtureSchedule(size, given), workers=workers))
            ctx.check(ok is True, "execute_query fails", "execute")
            ctx.check(client.wait_for_execution(job) is True, "the execution fails", "execute")
            watch = train.Watch(ctx, w, job, None if remote else w.home / "mixture_logs")
            streams = [acc.chunks_of(client, job, 0, 0, k) for k in range(workers)]
            highest, reports, last = 0, [], None
            for _ in range(rng.choice([6, 12, 20])):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    step = rng.choice([highest, highest, highest + rng.choice([1, 1, 2]), max(0, highest - rng.choice([1, 3 * scale])), rng.choice(starts), rng.choice(starts) + rng.choice([-1, 0, 1]),
                                       rng.randrange(0, 16 * scale)])
                    step = max(0, step)
                    if reports:
                        ctx.count("late_reports", step < highest)
                        ctx.count("repeated_reports", step in reports)
                    ctx.count("exact_start_reports", step in starts)
                    before = in_force(entries, highest)[0]
                    highest = max(highest, step)
                    after = in_force(entries, highest)[0]
                    ctx.count("skipped_entries", sum(before < s < after for s in starts) > 0)
                    reports.append(step)
                    ok = client.process_feedback(job, ClientFeedback(training_steps=step, mixture_id=0))
                    ctx.check(ok is True, f"the report of step {step} is not accepted", "report")
                start, shares = in_force(entries, highest)
                ctx.note(reports=reports, highest=highest, entry=start)
                if not watch.available(shares or {}, size) or sum(watch.left.values()) < 4 * size:
                    break
                with ctx.cpu_limit(20, "producing one chunk", "endless"):
                    chunk = next(rng.choice(streams), None)
                ctx.check(chunk is not None, "the job ends although there is data for the entry in force", "ends")
                watch.judge(chunk, shares, size)
                ctx.count("before_any_start", highest < min(starts))
                ctx.count("arbitrary_entries", shares is None)
                ctx.count("remote_chunks", remote)
                ctx.count("entry_changes", last is not None and last != start)
                last = start
                ctx.distinct(sorted(starts), highest, start, size)
        ctx.sample(dict(schedule=[(s, None if sh is None else {str(k): v for k, v in sh.items()}) for s, sh in entries], reports=reports, chunks=watch.n))
    finally:
        if server is not None:
            server.stop()
        else:
            w.close()
