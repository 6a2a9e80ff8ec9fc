"""P19: domain ids, mixture ids and the mixture log tell what happened."""
import copy
import json

import numpy as np

from vh import acc, gen, jobs, play, proc, srv, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: an online monitor over all chunks of a job (several consumers, changing mixtures, checkpoints, restores, server restarts) follows domain ids, mixture ids "
             "and the log on disk, knowing from outside which rows are in force; a second monitor compares what a streaming client reports with the chunks it has received")
NOTE = "held on the executed histories; the rows in force are computed by separate mixture objects (their rounding is P16's subject)"
RULE = "an evaluation is one chunk in order of generation, or one streamed sample; distinct by mixture kind, position and ids"
ASSUMPTIONS = ["the client's mixture id is that of the chunks it received while a stream of it is running"]
CASES = {"quick": 60, "thorough": 1800}
BUDGET = {"quick": 55, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 120
QUIESCE = 90
MUST_OBSERVE = ["chunks_followed", "mixture_changes", "unchanged_updates", "log_entries_compared", "other_nodes_compared", "restores", "restores_of_earlier", "restores_before_changes", "chunks_after_restore", "ends_reached", "none_mixtures",
                "late_domains", "streamed_samples", "client_ids_compared", "remote_jobs", "server_restarts", "returns_to_earlier", "client_id_changes",
                "chunks_after_failed_attempts", "ended_streams"]
MIN_EVALUATIONS = {"quick": 2000, "thorough": 30000}


class State:
    child = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


def rows_of(mixture):
    return {str(k): int(v) for k, v in mixture.mixture_in_rows().items()} or None


class Fixed:
    kind = "fixed"

    def __init__(self, ctx, rng, langs, size):
        from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture

        self.strict = rng.random() < 0.5
        r = rng.random()
        self.shares = None
        if r < 0.3:
            self.mixture, self.rows = ArbitraryMixture(chunk_size=size), None
            ctx.count("none_mixtures")
        elif r < 0.5:
            self.mixture, self.rows = InferringMixture(chunk_size=size, strict=self.strict), "first"
        else:
            parts = train.random_parts(rng, langs)
            self.mixture, self.shares = train.static(parts, size, self.strict), train.shares_of(parts)
            self.rows = rows_of(train.static(parts, size, self.strict))

    def in_force(self):
        return self.rows

    def started(self, chunk, t):
        if self.rows == "first":
            self.rows = {str(k): v for k, v in acc.mixture_rows(chunk).items()}

    def react(self, ctx, rng, client, job, mid):
        from mixtera.network.client.client_feedback import ClientFeedback

        ctx.check(client.process_feedback(job, ClientFeedback(training_steps=rng.randrange(100), mixture_id=max(0, mid))) is True, "a report is not accepted", "report", server=ctx.server and ctx.server.log()[-3000:])
        ctx.count("unchanged_updates")


class Schedule:
    kind = "schedule"

    def __init__(self, ctx, rng, langs, size):
        from mixtera.core.query.mixture import ArbitraryMixture
        from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry

        self.size, self.step, self.entries, given = size, 0, [], []
        pool = [train.random_parts(rng, langs) for _ in range(3)]
        starts = sorted(rng.sample(range(0, 16), rng.choice([2, 4, 6])))
        starts[0] = 0
        for s in starts:
            strict = rng.random() < 0.6
            if rng.random() < 0.2:
                m, rows, shares = ArbitraryMixture(chunk_size=size), None, None
                ctx.count("none_mixtures")
            else:
                parts = rng.choice(pool)  # the same mixture again, possibly as another object
                m, rows, shares = train.static(parts, size, strict), rows_of(train.static(parts, size, strict)), train.shares_of(parts)
            self.entries.append((s, rows, shares))
            given.append(ScheduleEntry(s, m))
        rng.shuffle(given)
        self.mixture = MixtureSchedule(size, given)

    def now(self):
        return [e for e in self.entries if e[0] <= self.step][-1]

    def in_force(self):
        return self.now()[1]

    @property
    def shares(self):
        return self.now()[2]

    def started(self, chunk, t):
        pass

    def react(self, ctx, rng, client, job, mid):
        from mixtera.network.client.client_feedback import ClientFeedback

        before = self.now()
        step = rng.choice([self.step, self.step + 1, self.step + 1, self.step + 3])
        ctx.check(client.process_feedback(job, ClientFeedback(training_steps=step, mixture_id=max(0, mid))) is True, "a report is not accepted", "report", server=ctx.server and ctx.server.log()[-3000:])
        self.step = max(self.step, step)
        ctx.count("unchanged_updates", before[1] == self.in_force())


class Dynamic:
    kind = "dynamic"

    def __init__(self, ctx, rng, langs, size):
        from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
        from vh import algs

        self.size, self.seed, self.strict = size, rng.randrange(1000), rng.random() < 0.4
        parts = train.random_parts(rng, langs, k=rng.randrange(2, len(langs) + 1))
        self.shares = train.shares_of(parts)
        self.alg = algs.Echo2(self.seed)
        self.mixture = DynamicMixture(size, train.static(parts, size, self.strict), algs.Echo2(self.seed), strict=self.strict)
        self.rows = rows_of(train.static(parts, size, self.strict))
        self.first = {d: 0 for d in self.shares}
        st = train.static(parts, size, self.strict).mixture_in_rows()
        self.first = {gen.key_tuple(k): v for k, v in st.items()}
        self.keys = None
        self.steps = 0

    def in_force(self):
        return self.rows

    def started(self, chunk, t):
        self.keys = {i: k for k, i in acc.key_ids(chunk).items()}
        first = np.zeros(max(t.ids.values()) + 1, dtype=np.float32)
        for d, n in self.first.items():
            first[t.ids[d]] = n
        self.alg.initial_mixture = first / first.sum()

    def react(self, ctx, rng, client, job, mid):
        from mixtera.core.query.mixture import StaticMixture
        from mixtera.network.client.client_feedback import ClientFeedback

        if self.keys is None:
            return
        self.steps += 1
        n = len(self.alg.initial_mixture)
        counts = np.array([rng.choice([0, 64, 512]) for _ in range(n)], dtype=np.int64)
        losses = np.array([rng.choice([1.0, 2.0, 5.5]) for _ in range(n)], dtype=np.float32) * counts
        ctx.check(client.process_feedback(job, ClientFeedback(training_steps=self.steps, mixture_id=max(0, mid), losses=losses.astype(np.float32).copy(), counts=counts.copy())) is True,
                  "a report is not accepted", "report", server=ctx.server and ctx.server.log()[-3000:])
        m = self.alg.process_losses(losses.astype(np.float32), counts, max(0, mid))
        before = self.rows
        if m is not None:
            weights = {self.keys[i]: x for i, x in enumerate(m) if x > 0}
            self.rows = rows_of(StaticMixture(self.size, weights, strict=self.strict))
            self.shares = {gen.key_tuple(k): float(x) for k, x in weights.items()}
        ctx.count("unchanged_updates", before == self.rows)


class Follow(train.Watch):
    """Judges ids and log; the rows in force come from outside."""

    def __init__(self, *args):
        super().__init__(*args)
        self.missed = False
        self.history: list = []

    def follow(self, chunk, in_force, shares, size):
        ctx = self.ctx
        t = jobs.trace_chunk(chunk)
        rows = {d: len(r) for d, r in t.rows.items() if r}
        ctx.note(chunk=self.n, rows=rows, in_force=in_force, mixture_id=t.mixture_id, before=self.last)
        # before accounting: what follows is only exact while there is plenty of everything
        plenty = shares is not None and self.available(shares, size)
        self.account(t)
        if plenty:
            bad = jobs.shares_ok(rows, shares, size)
            ctx.check(bad is None, f"chunk {self.n} does not follow the mixture in force: {bad}", "not-in-force", shares=shares)
        for d, i in t.ids.items():
            if d not in self.ids:
                ctx.count("late_domains", bool(self.ids))
            ctx.check(self.ids.setdefault(d, i) == i, f"domain {d} had id {self.ids[d]} and now has {i}", "domain-id")
        ctx.check(len(set(self.ids.values())) == len(self.ids), "two domains share an id", "domain-id", ids=self.ids)
        ctx.check(set(rows) <= set(t.ids), "a delivered domain has no id", "domain-id", ids=t.ids)
        mid = t.mixture_id
        ctx.check(isinstance(mid, int) and mid >= 0, f"the mixture id is {mid!r}", "mixture-id")
        if self.last is not None:
            ctx.check(mid >= self.last[0], f"the mixture id goes from {self.last[0]} to {mid}", "mixture-id")
            same = self.last[1] == in_force
            ctx.check((mid == self.last[0]) == same, f"the mixture {'stays the same' if same else 'changes'} while the mixture id goes from {self.last[0]} to {mid}", "mixture-id")
            ctx.count("returns_to_earlier", not same and any(h[1] == in_force for h in self.history))
        if self.last is None or mid != self.last[0]:
            self.changes.append((self.n, in_force))
            ctx.count("mixture_changes", self.last is not None)
        self.last = (mid, in_force)
        self.history.append(self.last)
        self.n += 1
        ctx.count("chunks_after_failed_attempts", self.missed)
        self.missed = False
        ctx.count("chunks_followed")
        ctx.evaluated()
        self.compare_log()
        return t

    def compare_log(self):
        ctx = self.ctx
        f = self.log_dir / self.job / "mixture.log"
        ctx.check(f.exists(), "there is no mixture log", "mixture-log")
        try:
            content = json.loads(f.read_text("utf-8"))
        except json.JSONDecodeError as e:
            ctx.fail(f"the mixture log is not JSON: {e}", "mixture-log", content=f.read_text("utf-8")[-600:])
        logged = next(v for v in content.values() if isinstance(v, dict))
        logged = {int(k): v for k, v in logged.items() if int(k) < self.n}
        want = dict(self.changes)
        ctx.note(log=logged, changes=want)
        ctx.check(sorted(logged) == sorted(want), f"the mixture log names changes at chunks {sorted(logged)}, mixtures came into force at {sorted(want)}", "mixture-log")
        for k, rows in want.items():
            ctx.check(logged[k] == (rows or {}), f"the mixture log names another mixture for chunk {k} than the one in force", "mixture-log", logged_rows=logged[k], rows=rows)
        ctx.count("log_entries_compared", len(want))


def follow_job(ctx, st, rng, w, client, server, langs, name):
    size = rng.choice([2, 5, 8, 13])
    src = rng.choice([Fixed, Schedule, Schedule, Dynamic, Dynamic])(ctx, rng, langs, size)
    dp, nodes, workers = rng.choice([(1, 1, 1), (1, 1, 2), (1, 1, 3), (2, 1, 1), (2, 2, 2), (1, 2, 1), (1, 3, 2)])
    ctx.note(kind=src.kind, chunk_size=size, layout=[dp, nodes, workers], mixture=str(src.mixture))
    ok = client.execute_query(gen.build_query(name, []), acc.exec_args(src.mixture, dp=dp, nodes=nodes, workers=workers))
    ctx.check(ok is True and client.wait_for_execution(name) is True, "the execution fails", "execute")
    watch = Follow(ctx, w, name, w.home / "mixture_logs")
    consumers = [(d, n, k) for d in range(dp) for n in range(nodes) for k in range(workers)]
    streams, taken, known, ended = {}, {c: 0 for c in consumers}, {}, {}
    redelivered, positions = set(), {c: 0 for c in consumers}
    restores, saved = 0, []
    for turn in range(rng.choice([10, 25, 60])):
        r = rng.random()
        if r < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                src.react(ctx, rng, client, name, watch.last[0] if watch.last else 0)
                ended.clear()
        elif r < 0.38 and restores < 3 and not ended:
            # all nodes of a group at the same chunk
            for d, n, k in consumers:
                if (d, n, k) in redelivered and nodes > 1:
                    request(ctx, watch, src, client, name, (d, n, k), streams, taken, known, redelivered, workers, size)
            for d, n, k in consumers:
                while taken[(d, n, k)] < max(taken[(d, m, k)] for m in range(nodes)):
                    if not request(ctx, watch, src, client, name, (d, n, k), streams, taken, known, redelivered, workers, size):
                        ctx.fail("another node of the group has no chunk", "ends")
            at = {c: 0 if c in redelivered or not taken[c] else rng.choice([0, 1, size]) for c in consumers}
            for d, _, k in consumers:  # nodes of a group stand alike
                for n in range(nodes):
                    at[(d, n, k)] = at[(d, 0, k)]
            order = [(d, n) for d in range(dp) for n in range(nodes)]
            rng.shuffle(order)
            ids = {client.checkpoint(name, d, n, [at[(d, n, k)] for k in range(workers)], server=True) for d, n in order}
            ctx.check(len(ids) == 1, "participants get different checkpoint ids", "checkpoint")
            cid = ids.pop()
            play.wait(client, name, cid)
            memo = {id(o): o for o in (ctx, watch.where)}
            saved.append((cid, copy.deepcopy((watch, src, taken, known), memo)))
            if rng.random() < 0.35:
                continue  # restored later, or never
            if server is not None:
                server.stop()
                server.start()
                client = server.client()
                ctx.count("server_restarts")
            else:
                from mixtera.core.client import MixteraClient

                client = MixteraClient.from_directory(w.home)
            if len(saved) > 1 and rng.random() < 0.6:  # what happened since then is void
                cid, then = rng.choice(saved[:-1])
                ctx.count("restores_of_earlier")
                ctx.count("restores_before_changes", len(then[0].changes) < len(watch.changes))
                watch, src, taken, known = copy.deepcopy(then, {id(o): o for o in (ctx, watch.where)})
            client.restore_checkpoint(name, cid)
            ctx.check(server is None or client.wait_for_execution(name) is True, "the restore fails", "restore")
            streams.clear()
            redelivered = {c for c in consumers if taken[c]}
            restores += 1
            ctx.count("restores")
            # what was generated only because another worker of the group asked for it stays as it is
        else:
            c = rng.choice(consumers)
            if ended.get(c):
                continue
            if not request(ctx, watch, src, client, name, c, streams, taken, known, redelivered, workers, size, restores):
                ended[c] = True
                ctx.count("ends_reached")
                if src.kind == "fixed" or len(ended) == len(consumers):
                    if all(ended.get(c) for c in consumers):
                        break
    ctx.distinct(src.kind, watch.n, watch.history)
    ctx.sample(dict(kind=src.kind, layout=[dp, nodes, workers], chunks=watch.n, ids=[h[0] for h in watch.history][-12:], restores=restores))
    return client


def request(ctx, watch, src, client, name, c, streams, taken, known, redelivered, workers, size, restores=0):
    """One chunk for a consumer; the first delivery of a chunk of a group tells what was generated."""
    if c not in streams:
        streams[c] = acc.chunks_of(client, name, *c)
    with ctx.cpu_limit(20, "producing one chunk", "endless"):
        chunk = next(streams[c], None)
    if chunk is None:
        del streams[c]
        watch.missed = True
        return False
    cid = c[2] + taken[c] * workers
    if c in redelivered:  # restored in the middle of (or after) its last chunk
        redelivered.discard(c)
        before = known[(c[0], cid - workers)]
        t = jobs.trace_chunk(chunk)
        if t.mixture_id == before[0] and set(map(tuple, sum(t.rows.values(), []))) == before[1]:
            ids_agree(ctx, watch, t)
            return True
    if (c[0], cid) in known:
        t = jobs.trace_chunk(chunk)
        mid, rows = known[(c[0], cid)]
        ctx.check(t.mixture_id == mid, f"nodes of a group see mixture ids {mid} and {t.mixture_id} for the same chunk", "mixture-id")
        ctx.check(set(map(tuple, sum(t.rows.values(), []))) == rows, "nodes of a group see different chunks", "chunk")
        ids_agree(ctx, watch, t)
        ctx.count("other_nodes_compared")
    else:
        in_force = src.in_force()
        if in_force == "first":
            src.started(chunk, None)
            in_force = src.in_force()
        t = watch.follow(chunk, in_force, src.shares, size)
        if src.kind == "dynamic" and src.keys is None:
            src.started(chunk, t)
        known[(c[0], cid)] = (t.mixture_id, set(map(tuple, sum(t.rows.values(), []))))
        ctx.count("chunks_after_restore", restores > 0)
    taken[c] += 1
    return True


def ids_agree(ctx, watch, t):
    for d, i in t.ids.items():
        ctx.check(watch.ids.get(d, i) == i, f"domain {d} had id {watch.ids.get(d)} and now has {i}", "domain-id")


def stream_job(ctx, rng, w, client, langs, name):
    """What the client reports while it streams."""
    size = rng.choice([2, 5, 8])
    src = rng.choice([Fixed, Schedule, Schedule, Dynamic])(ctx, rng, langs, size)
    workers = rng.choice([1, 1, 2])
    ok = client.execute_query(gen.build_query(name, []), acc.exec_args(src.mixture, workers=workers))
    ctx.check(ok is True and client.wait_for_execution(name) is True, "the execution fails", "execute")
    ctx.check(client.current_mixture_id is None, f"the client reports mixture {client.current_mixture_id} before it streams", "client-id")
    received, doms = [], {}
    real = client._stream_result_chunks
    where = {s.text: s for s in w.samples()}

    def recording(*args, **kw):
        for chunk in real(*args, **kw):
            t = jobs.trace_chunk(chunk)
            if src.kind == "dynamic" and src.keys is None:
                src.started(chunk, t)
            received.append(t.mixture_id)
            for d, i in t.ids.items():
                ctx.check(doms.setdefault(i, d) == d, f"id {i} means {doms[i]} and {d}", "domain-id")
            yield chunk

    client._stream_result_chunks = recording
    streams = [acc.stream(client, name, 0, 0, k) for k in range(workers)]
    last = None
    for _ in range(rng.choice([20, 60, 150])):
        if not streams:
            break
        if rng.random() < 0.1:
            src.react(ctx, rng, client, name, client.current_mixture_id or 0)
        s = rng.choice(streams)
        with ctx.cpu_limit(20, "producing one sample", "endless"):
            item = next(s, None)
        if item is None:
            streams.remove(s)
            want = max(received, default=None)
            ctx.check(client.current_mixture_id == want, f"after the end of a stream the client reports mixture {client.current_mixture_id}, the newest it received is {want}", "client-id")
            ctx.count("ended_streams")
            continue
        _, kid, text = item
        ctx.note(received=received[-6:], reported=client.current_mixture_id)
        ctx.check(client.current_mixture_id == max(received), f"the client reports mixture {client.current_mixture_id}, the newest it received is {max(received)}", "client-id")
        ctx.check(kid in doms, f"sample with the unknown domain id {kid}", "domain-id", ids=doms)
        smp = where.get(text)
        ctx.check(smp is not None and jobs.matches(doms[kid], gen.domain_of(smp.meta)), f"a sample comes with id {kid} of {doms[kid]}, which it does not match", "domain-id")
        ctx.count("client_id_changes", last is not None and last != client.current_mixture_id)
        last = client.current_mixture_id
        ctx.count("streamed_samples")
        ctx.count("client_ids_compared")
        ctx.evaluated()
    for s in streams:
        s.close()
    del client._stream_result_chunks
    ctx.distinct("stream", src.kind, last, len(received))


def run_case(ctx, st, i):
    rng = ctx.rng
    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([12, 40, 120]))
    remote = i % 4 == 3
    server, client = None, w.client
    ctx.server = None
    if remote:
        w.close()
        server = srv.Server(st.child, w.home)
        client = server.client()
        ctx.server = server
        ctx.count("remote_jobs")
    try:
        stream_job(ctx, rng, w, client, langs, "s0")
        client = server.client() if remote else client
        for q in range(2):
            client = follow_job(ctx, st, rng, w, client, server, langs, f"f{q}")
    finally:
        if server is not None:
            server.stop()
        elif client is w.client:
            w.close()
