"""P07: data-parallel groups share nothing, the nodes of a group see the same stream."""
import multiprocessing as mp
import pickle
import random
import time

from vh import acc, gen, jobs
from vh.props.p01 import build_world

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exactly-once and same-stream checker over the recorded hand-outs of random request schedules, forked workers included"
NOTE = ("held on the executed schedules: every hand-out of every chunk is recorded with group, node and worker and compared with a single consumer's chunks")
RULE = ("an evaluation is one job distributed to its end under one random schedule of requests (bursts, stragglers, lagging nodes, forked workers, streams of "
        "the client or the distributor); distinct by layout and hand-out history; non-trivial: at least two consumers and two chunks")
ASSUMPTIONS = ["requests of one distributor are not issued from several threads at once (documented)"]
CASES = {"quick": 48, "thorough": 1500}
BUDGET = {"quick": 70, "thorough": 630}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 90
MUST_OBSERVE = ["handouts", "jobs_multi_group", "jobs_multi_node", "jobs_multi_worker", "jobs_forked", "jobs_mixture_changed", "lagging_nodes"]
MIN_EVALUATIONS = {"quick": 60, "thorough": 700}


def setup(ctx):
    from vh.boot import boot

    boot()


def ident(chunk):
    t = jobs.trace_chunk(chunk)
    return (t.mixture_id, tuple((d, tuple(r)) for d, r in t.rows.items()), tuple(sorted(t.ids.items())))


def rows_of(idt):
    return [r for _, rows in idt[1] for r in rows]


def schedule(rng, consumers):
    """Endless random choice among the live consumers with bursts, priorities and stragglers."""
    kind = rng.choice(["uniform", "bursty", "straggler", "sequential", "roundrobin", "weighted"])
    weights = {c: rng.choice([1, 1, 5, 40]) for c in consumers}
    lag = rng.choice(consumers)

    def pick(live, n):
        if kind == "uniform" or len(live) == 1:
            return rng.choice(live), rng.choice([1, 1, 1])
        if kind == "bursty":
            return rng.choice(live), rng.choice([1, 2, 7, 30])
        if kind == "straggler":
            others = [c for c in live if c != lag]
            return (rng.choice(others) if others and rng.random() < 0.97 else live[0]), 1
        if kind == "sequential":
            return live[0], 10**6
        if kind == "roundrobin":
            return live[n % len(live)], 1
        return rng.choices(live, [weights[c] for c in live])[0], 1

    return kind, pick


def distribute(ctx, client, job, dims, rng, on_step=None, limit=10**5):
    """Hands out everything; returns consumer -> list of chunk identities."""
    dp, nodes, workers = dims
    consumers = [(d, n, w) for d in range(dp) for n in range(nodes) for w in range(max(1, workers))]
    rng.shuffle(consumers)
    kind, pick = schedule(rng, consumers)
    how = rng.choice(["distributor", "distributor", "stream"])
    distri = client._get_query_chunk_distributor(job)
    got = {c: [] for c in consumers}
    streams = {c: acc.chunks_of(client, job, *c) for c in consumers}
    live = list(consumers)
    total = n = 0
    while live:
        c, burst = pick(live, n)
        n += 1
        for _ in range(burst):
            try:
                if how == "stream":
                    chunk = next(streams[c])
                else:
                    raw = rng.random() < 0.7
                    chunk = distri.next_chunk_for(*c, deserialize=not raw)
                    if raw:
                        ctx.check(isinstance(chunk, (bytes, bytearray)), "a chunk asked for in serialised form is not", "form", got=type(chunk).__name__)
                        import dill

                        chunk = dill.loads(chunk)
            except StopIteration:
                live.remove(c)
                break
            got[c].append(ident(chunk))
            total += 1
            ctx.check(total <= limit, "more chunks are handed out than can exist", "endless", handouts=total, limit=limit)
            ctx.count("handouts")
            if len({len(got[(c[0], m, c[2])]) for m in range(nodes)}) > 1 and max(len(got[(c[0], m, c[2])]) for m in range(nodes)) - min(
                    len(got[(c[0], m, c[2])]) for m in range(nodes)) >= 2:
                ctx.count("lagging_nodes")
            if on_step:
                on_step(total)
    return kind + "/" + how, got


def check_sharing(ctx, got, dims, reference):
    dp, nodes, workers = dims
    owner, rows = {}, {}
    streams = []
    for d in range(dp):
        for w in range(max(1, workers)):
            first = got[(d, 0, w)]
            for n in range(1, nodes):
                other = got[(d, n, w)]
                for k, (a, b) in enumerate(zip(first, other)):
                    ctx.check(a == b, "two nodes of a group got different chunks", "node-streams", group=d, worker=w, nodes=(0, n), position=k, a=a, b=b)
                ctx.check(len(first) == len(other), "two nodes of a group got different numbers of chunks", "node-streams", group=d, worker=w, nodes=(0, n),
                          lengths=(len(first), len(other)))
            for k, c in enumerate(first):
                for r in rows_of(c):
                    ctx.check(r not in rows, "a sample reached two groups or workers, or one of them twice", "shared-chunk", row=r, first=rows.get(r), second=(d, w, k))
                    rows[r] = (d, w, k)
                owner[c] = (d, w, k)
            streams.append(first)
    if reference is not None:
        content = {c[1]: c for c in reference}
        for c, o in owner.items():
            ctx.check(c[1] in content, "a group received a chunk that the job does not have", "invented-chunk", owner=o, chunk=c)
        missing = [c for k, c in content.items() if k not in {x[1] for x in owner}]
        ctx.check(not missing, f"{len(missing)} chunks of the job reached nobody", "lost-chunk", missing=missing[:2])


def forked(client, job, workers, seed, out):
    """Every worker in its own forked process, as data loaders do."""
    def body(w):
        rng = random.Random(f"{seed}|{w}")
        res = []
        try:
            for c in acc.chunks_of(client, job, 0, 0, w):
                res.append(ident(c))
                if rng.random() < 0.3:
                    time.sleep(rng.random() * 0.01)
            (out / f"{job}-{w}").write_bytes(pickle.dumps(res))
        except BaseException as e:  # pylint: disable=broad-except
            (out / f"{job}-{w}").write_bytes(pickle.dumps(repr(e)))

    ps = [mp.get_context("fork").Process(target=body, args=(w,)) for w in range(workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    return {(0, 0, w): pickle.loads((out / f"{job}-{w}").read_bytes()) for w in range(workers)}, [p.exitcode for p in ps]


def run_case(ctx, state, i):
    rng = ctx.rng
    w = build_world(ctx, rng, formats=("jsonl",))
    allsamples = w.samples()
    doms = [gen.domain_of(s.meta) for s in allsamples]
    for q in range(4):
        spec = jobs.random_mixture(rng, doms, overlap=rng.random() < 0.3, chunk_sizes=(1, 2, 3, 5, 7, 12))
        fork = q == 3
        dims = (1, 1, rng.choice([2, 3, 4])) if fork else rng.choice([(2, 1, 0), (1, 2, 1), (2, 2, 2), (1, 3, 2), (3, 1, 2), (1, 1, 3), (2, 3, 1), (1, 4, 3), (4, 2, 0)])
        ctx.note(mixture=spec.describe(), dims=dims, forked=fork)
        plan = []
        ok = w.client.execute_query(gen.build_query(f"ref{q}", plan), acc.exec_args(jobs.make_mixture(spec)))
        ctx.check(ok, "execute_query reported failure")
        limit = 2 * len(allsamples) + 5
        ref = []
        for c in acc.chunks_of(w.client, f"ref{q}"):
            ref.append(ident(c))
            ctx.check(len(ref) <= limit, "more chunks than samples", "endless")
        ok = w.client.execute_query(gen.build_query(f"j{q}", plan), acc.exec_args(jobs.make_mixture(spec), *dims))
        ctx.check(ok, "execute_query reported failure")
        if fork:
            got, rcs = forked(w.client, f"j{q}", dims[2], ctx.sub_rng("fork", q).random(), ctx.dir("fork"))
            bad = [g for g in got.values() if isinstance(g, str)]
            ctx.check(not bad, f"a forked worker failed: {bad[:1]}", "fork-failed", exitcodes=rcs)
            kind = "forked"
            ctx.count("jobs_forked")
            ctx.count("handouts", sum(map(len, got.values())))
            check_sharing(ctx, got, dims, ref)
        else:
            change = rng.random() < 0.25 and len(ref) > 3 and spec.kind != "arbitrary"
            step = None
            if change:
                other = jobs.random_mixture(rng, doms, kinds=("static", "inferring"), strict=False, chunk_sizes=(spec.chunk_size,))
                at = rng.randrange(1, 6)
                mix = jobs.make_mixture(other)

                def step(total, at=at, mix=mix, q=q):
                    if total == at:
                        w.client._get_query_result(f"j{q}").update_mixture(mix)

                ctx.count("jobs_mixture_changed")
            kind, got = distribute(ctx, w.client, f"j{q}", dims, rng, step, limit * dims[1] + 50)
            ctx.note(schedule=kind)
            check_sharing(ctx, got, dims, None if change else ref)
        ctx.evaluated()
        ctx.count("jobs_multi_group", dims[0] > 1)
        ctx.count("jobs_multi_node", dims[1] > 1)
        ctx.count("jobs_multi_worker", dims[2] > 1)
        if len(ref) > 1:
            ctx.distinct(dims, kind, {str(k): len(v) for k, v in got.items()}, spec.describe(), [hash(c) for c in ref[:3]])
        ctx.sample(dict(layout=dims, schedule=kind, chunks=len(ref), handouts={str(k): len(v) for k, v in got.items()}))
    w.close()
