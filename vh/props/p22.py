"""P22: data loader workers together see the node's data once and report where they are."""
import os
from collections import Counter

from vh import gen, loaders, proc, srv, tok, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: real data loaders with worker processes on both dataset wrappers, one process per node, against a server or a local collection; every stream of a worker is "
             "compared with the chunks of a twin job, reported positions with the samples the workers produced, restored streams with what was still due")
NOTE = "held on the executed trainings"
RULE = ("an evaluation is one worker stream judged against the chunks of the job; distinct by wrapper, layout, batch size, reading mode and content; non-trivial: the stream has samples")
ASSUMPTIONS = ["checkpoints are taken while no worker is fetching (positions and chunks are not read in one step)", "workers are forked",
               "a local job with worker processes refuses to be checkpointed"]
CASES = {"quick": 70, "thorough": 1600}
BUDGET = {"quick": 75, "thorough": 640}
SHARDS = {"quick": 4, "thorough": 4}
CASE_CPU = 150
QUIESCE = 90
MUST_OBSERVE = ["perturbed_jobs", "streams_judged", "samples_judged", "torch_jobs", "hf_jobs", "local_jobs", "remote_jobs", "worker_processes", "several_groups", "several_nodes", "token_jobs", "checkpoints", "positions_compared",
                "restored_streams", "restored_workers", "tunnelled_jobs", "key_ids_compared", "server_restarts", "refused_checkpoints", "checkpoints_at_end"]
MIN_EVALUATIONS = {"quick": 80, "thorough": 2000}


class State:
    server = nodes = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.tok = tok.save(ctx.scratch_root / "tok")
    st.server = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    st.nodes = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="nodes", env={"VH_PRELOAD": "torch,datasets,transformers,mixtera.torch,mixtera.hf,mixtera.utils.checkpoint", "TOKENIZERS_PARALLELISM": "false"})
    return st


def options(ctx, st, rng, remote):
    kind = rng.choice(["simple", "simple", "window", "token"])
    o = {}
    if kind == "window":
        o.update(chunk_reading_mixture_type="window", chunk_reading_window_size=rng.choice([2, 5, 128]))
    elif kind == "token":
        o.update(chunk_reading_mixture_type="token", chunk_reading_tokenizer=st.tok, chunk_reading_sequence_len=rng.choice([6, 15]), chunk_reading_tokenization_bs=rng.choice([1, 3, 100]),
                 chunk_reading_token_separate_thread=rng.random() < 0.5)
        ctx.count("token_jobs")
    if remote and rng.random() < 0.25:
        o["tunnel_via_server"] = True
        ctx.count("tunnelled_jobs")
    return kind, o


def make_mixture(rng, langs, size, token):
    r = rng.random()
    if r < 0.4 and not token:
        return ("arbitrary", size, None)
    if r < 0.6:
        return ("inferring", size, None)
    return ("static", size, train.random_parts(rng, langs))


class Chunks:
    """Consumes the chunks of the twin job."""

    def __init__(self, ctx, chunks, keys):
        self.ctx, self.keys = ctx, keys
        self.chunks = [c if keys else [(None, x) for _, x in c] for c in chunks]
        self.left = Counter(range(len(self.chunks)))

    def parse(self, stream, who, used):
        """Splits a stream into whole chunks; returns where they start. used: chunks taken by this group (all its nodes must agree)."""
        at, starts = 0, []
        while at < len(stream):
            fits = [i for i in self.left if self.chunks[i] and stream[at:at + len(self.chunks[i])] == self.chunks[i]]
            if not fits:
                near = [i for i in range(len(self.chunks)) if self.chunks[i] and self.chunks[i][0] == stream[at]]
                self.ctx.fail(f"{who}: the stream does not continue with a whole chunk that nobody else has received, in its order", "stream", position=at, got=str(stream[at:at + 8]),
                              candidates=str([(i, i in self.left, self.chunks[i][:8]) for i in near[:2]]))
            i = max(fits, key=lambda i: len(self.chunks[i]))
            del self.left[i]
            used.append(i)
            starts.append((at, i))
            at += len(self.chunks[i])
        return starts


def streams_of(s, res):
    """worker -> samples, in order"""
    out = {j: [] for j in range(max(1, s["workers"]))}
    for wid, batch in res["batches"]:
        out[wid] += batch
    return out


def nodes(ctx, st, where, s):
    ctx.note(spec={k: str(v)[-300:] for k, v in s.items()})
    try:
        got = st.nodes.call("vh.loaders:run_nodes", where, s, str(ctx.scratch_root))
    except proc.ChildError as e:
        proc.judge(ctx, e)
    out = {}
    for n, r in sorted(got.items()):
        if r[0] == "died":
            ctx.fail(f"the process of node {n} died", "died", log=st.nodes.log.read_text("utf-8", "replace")[-2500:])
        if r[0] == "exc":
            if r[2].startswith("harness: the stream does not end"):
                ctx.fail(f"node {n} receives more samples than the job has", "endless")
            ctx.fail(f"node {n}: unexpected {r[1]}: {r[2][:400]}", f"raises-{r[1]}", traceback=r[3], blamed=r[4])
        out[n] = r[1]
    return out


def judge(ctx, s, got, chunks, skipped=None, what=""):
    """skipped: (dp, worker) -> rest of the chunk that is still due first."""
    for dp in range(s["dp"]):
        first = streams_of(s, got[(dp, 0)])
        for nd in range(1, s["nodes"]):
            ctx.check(streams_of(s, got[(dp, nd)]) == first, f"{what}the nodes of group {dp} receive different data", "nodes-differ",
                      first=str(first)[:600], other=str(streams_of(s, got[(dp, nd)]))[:600])
    return {(dp, j): stream for dp in range(s["dp"]) for j, stream in streams_of(s, got[(dp, 0)]).items()}


def run_case(ctx, st, i):
    rng = ctx.rng
    remote = rng.random() < 0.7
    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([3, 12, 30]))
    w.close()
    server = srv.Server(st.server, w.home) if remote else None
    where = (server.port,) if remote else str(w.home)
    kind, opts = options(ctx, st, rng, remote)
    size = rng.choice([1, 3, 5, 8, 12, 20])
    hf = rng.random() < 0.45
    dp, nd = (rng.choice([1, 1, 2]), rng.choice([1, 1, 2])) if remote else (1, 1)
    workers = rng.choice([0, 1, 2, 3] if dp * nd < 3 else [0, 0, 1, 2])
    checkpoint = rng.random() < 0.75
    if workers == 0 and rng.random() < 0.2:
        opts["chunk_reading_degree_of_parallelism"] = 2
    mixture = make_mixture(rng, langs, size, kind == "token")
    job = f"j{os.getpid()}x{os.urandom(3).hex()}"
    s = dict(job=job, mixture=mixture, dp=dp, nodes=nd, workers=workers, opts=opts, kind="hf" if hf else "torch", format=rng.random() < 0.5, keys=rng.random() < 0.6, prefetch=rng.choice([1, 2, 4]),
             batch=rng.choice([1, 2, 3, 7]), take=None, limit=3 * len(w.samples()) * 10 + 50, by_loader=rng.random() < 0.7, wait_for_disk=rng.random() < 0.5)
    for n, on in (("torch_jobs", not hf), ("hf_jobs", hf), ("local_jobs", not remote), ("remote_jobs", remote), ("several_groups", dp > 1), ("several_nodes", nd > 1)):
        ctx.count(n, on)
    ctx.count("worker_processes", dp * nd * workers)
    s["perturb"] = not remote and rng.random() < 0.7  # local workers share a query result: delays at random lines of it
    ctx.count("perturbed_jobs", s["perturb"] and workers > 1)
    try:
        twin = st.nodes.call("vh.loaders:reference", where, job + "twin", mixture, opts)
    except proc.ChildError as e:
        proc.judge(ctx, e)
    total = sum(len(c) for c in twin)
    if hf and kind == "token":  # every token is reported under the domain of its sequence
        twin = [[(tuple([k] * len(x)), x) for k, x in c] for c in twin]
    chunks = Chunks(ctx, twin, hf or s["keys"])
    if checkpoint and total >= 4:
        m = rng.randrange(0, max(1, total // (s["batch"] * dp * rng.choice([1, 3, 3, 3]))) + 2)
        m = 10**6 if rng.random() < 0.2 else m
        chk = ctx.dir("chk")
        s.update(take=m, checkpoint=str(chk))
    got = nodes(ctx, st, where, s)
    full = judge(ctx, s, got, chunks)
    starts = {}
    for who, stream in sorted(full.items()):
        starts[who] = chunks.parse(stream, f"group {who[0]}, worker {who[1]}", [])
        ctx.count("streams_judged")
        ctx.count("samples_judged", len(stream) * nd)
        ctx.evaluated()
        if stream:
            ctx.distinct(s["kind"], dp, nd, workers, s["batch"], kind, stream)
    missing = [c for c in chunks.left if chunks.chunks[c]]
    ctx.check(not missing, f"{len(missing)} chunks reach no worker", "lost", example=str(chunks.chunks[missing[0]][:5]) if missing else None)
    ctx.count("key_ids_compared", total if chunks.keys else 0)
    ctx.sample({k: v for k, v in s.items() if k in ("kind", "dp", "nodes", "workers", "batch", "prefetch", "take")})
    refused = not remote and workers > 0
    taken = all(r["checkpoint"] for r in got.values())
    if taken:
        for n, r in got.items():
            ctx.check(bool(r["refused"]) == refused, f"node {n}: the checkpoint " + ("of a local job with worker processes is not refused" if refused else f"is refused: {r['refused']}"), "refused")
        ctx.count("refused_checkpoints", refused)
    if taken and not refused:
        server = resume(ctx, st, w, server, s, got, full, starts, twin)
    if server:
        ctx.check(server.alive(), "the server died", "server-died", log=server.log()[-2000:])
        server.stop()


def resume(ctx, st, w, server, s, got, full, starts, twin):
    ctx.count("checkpoints")
    chunks = Chunks(ctx, twin, s["kind"] == "hf" or s["keys"])
    due, comparable = {}, all(r["quiet"] for r in got.values())
    for (dp, j), stream in sorted(full.items()):
        produced = {n: min(r["produced"][j], len(stream)) for n, r in got.items() if n[0] == dp}
        comparable = comparable and len(set(produced.values())) == 1
        n = min(produced.values())
        begun = [(at, c) for at, c in starts[(dp, j)] if at < n]
        at, cur = begun[-1] if begun else (0, None)
        for _, c in begun:
            del chunks.left[c]
        due[(dp, j)] = chunks.chunks[cur][n - at:] if begun else []
        if comparable:
            for node, r in got.items():
                if node[0] == dp:
                    ctx.check(r["status"] is not None and len(r["status"]) == max(1, s["workers"]), "a node reports no positions, or not those of its workers", "position", status=r["status"])
                    ctx.check(r["status"][j] == n - at, f"node {node} reports worker {j} at sample {r['status'][j]} of its chunk, the worker has produced {n - at} of it", "position", produced=n, chunk=at)
                    ctx.count("positions_compared")
    if not comparable:  # a worker was still at work
        return server
    ctx.count("checkpoints_at_end", all(p >= len(full[(n[0], j)]) for n, r in got.items() for j, p in enumerate(r["produced"])))
    s = dict(s, restore=s["checkpoint"], take=None)
    del s["checkpoint"]
    where = str(w.home)
    if server:
        server.stop()
        server = srv.Server(st.server, w.home)
        ctx.count("server_restarts")
        where = (server.port,)
    again = nodes(ctx, st, where, s)
    ctx.note(due=str({k: len(v) for k, v in due.items()}))
    for who, stream in sorted(judge(ctx, s, again, chunks, what="after the restore, ").items()):
        rest = due[who]
        ctx.check(stream[:len(rest)] == rest, f"after the restore, group {who[0]}, worker {who[1]} does not continue where it was", "resume", want=str(rest[:6]), got=str(stream[:6]),
                  before=str(full[who][:40])[:800])
        chunks.parse(stream[len(rest):], f"after the restore, group {who[0]}, worker {who[1]}", [])
        ctx.count("restored_streams")
        ctx.count("restored_workers", s["workers"] > 0)
        ctx.evaluated()
    missing = [c for c in chunks.left if chunks.chunks[c]]
    ctx.check(not missing, f"{len(missing)} chunks reach no worker after the restore", "lost")
    return server


def finish(ctx, st):
    st.server.close()
    st.nodes.close()
