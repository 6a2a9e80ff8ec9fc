"""P27: the helpers of the training loop report once, for the right rank, what was measured; all ranks get the same checkpoint."""
import json
import os
from collections import Counter

from vh import loaders, proc, ranks, srv, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every rank of a training is a process with a real dataset wrapper and data loader that calls the helpers at random moments; recorded client calls, what arrives at "
             "the mixing algorithm of the job, checkpoint files and return values are judged against the layout of the ranks and the observed chunk streams")
NOTE = "held on the executed trainings"
RULE = "an evaluation is one helper call of one rank; distinct by layout, wrapper, holder, rank, kind of report and mixture; non-trivial: the rank has received data"
ASSUMPTIONS = ["losses and counts have types that numpy knows (no bfloat16)", "checkpoints are taken while no worker is fetching",
               "feedback starts after the first batch; while workers prefetch, the newest mixture is known up to the chunk being fetched"]
CASES = {"quick": 100, "thorough": 3000}
BUDGET = {"quick": 70, "thorough": 600}
SHARDS = {"quick": 4, "thorough": 4}
CASE_CPU = 150
QUIESCE = 90
MUST_OBSERVE = ["feedback_sent", "feedback_withheld", "mixture_ids_exact", "mixture_ids_bounded", "changed_mixtures", "reports_at_algorithm", "after_end", "foreign_objects", "refused_steps", "refused_directories",
                "checkpoint_rounds", "checkpoint_ids_compared", "disk_compared", "recovered_trainings", "second_jobs", "several_groups", "several_nodes", "hf_ranks", "torch_ranks", "worker_processes",
                "held_generator", "held_object", "held_attribute", "held_dataset"]
MIN_EVALUATIONS = {"quick": 1200, "thorough": 30000}
TYPES = ["list", "tuple", "np.float32", "np.float64", "np.float16", "torch.float32", "torch.float32.grad", "torch.float64", "torch.float16"]
INTS = ["list", "np.int64", "np.int32", "torch.int64", "torch.int32", "tuple"]


class State:
    server = nodes = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.server = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    st.nodes = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="nodes",
                          env={"VH_PRELOAD": "torch,datasets,mixtera.torch,mixtera.hf,mixtera.utils.checkpoint,mixtera.utils.feedback", "TOKENIZERS_PARALLELISM": "false"})
    return st


def report(rng, n):
    """(losses, counts), exactly representable in all types"""
    r = rng.random()
    if r < 0.2:
        return ((None, None), (None, None))
    lo = (rng.choice(TYPES), [rng.randrange(0, 64) / 8.0 for _ in range(n)])
    co = (rng.choice(INTS), [rng.randrange(0, 50) for _ in range(n)])
    if r < 0.3:
        return ((None, None), co)
    if r < 0.4:
        return (lo, (None, None))
    return (lo, co)


def run_case(ctx, st, i):
    rng = ctx.rng
    remote = rng.random() < 0.8
    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([6, 20, 40]))
    w.close()
    server = srv.Server(st.server, w.home) if remote else None
    where = (server.port,) if remote else str(w.home)
    size = rng.choice([1, 2, 3, 5, 8])
    dp = rng.choice([1, 1, 2]) if remote else 1
    nodes, tp = rng.choice([(1, 1), (1, 1), (2, 1), (2, 2), (4, 2)] if dp == 1 else [(1, 1), (2, 1), (2, 2)]) if remote else (1, 1)
    workers = rng.choice([0, 0, 1, 2]) if dp * nodes < 4 else 0
    hf = rng.random() < 0.5
    steps = rng.choice([4, 10, 16])
    dynamic = remote and rng.random() < 0.6
    alg = ctx.dir("alg") / "log"
    alg.touch()
    parts = train.random_parts(rng, langs)
    mixture = ("dynamic", max(size, 3), parts, str(alg)) if dynamic else rng.choice([("arbitrary", size, None), ("static", size, parts)])
    transforms = [t for t in ("map", "filter", "format") if rng.random() < 0.3]
    rng.shuffle(transforms)
    transforms.insert(rng.randrange(len(transforms) + 1), "split")
    rounds = sorted(rng.sample(range(steps), rng.choice([0, 1, 1, 2]))) if remote or workers == 0 else []
    n = rng.randrange(1, 5)
    s = dict(job=f"r{os.getpid()}x{os.urandom(3).hex()}", seed=rng.randrange(2**40), home=str(w.home), mixture=mixture, dp=dp, nodes=nodes, tp=tp, workers=workers, kind="hf" if hf else "torch", transforms=transforms,
             batch=rng.choice([1, 2, 3]), prefetch=rng.choice([1, 2]), steps=steps, first_step=rng.choice([0, 1, 100, 2**33]), jitter=rng.choice([0.0, 0.02, 0.1]), rounds=rounds,
             paths=[str(ctx.dir("chk")) for _ in rounds], wait=rng.random() < 0.6, holder=rng.choice(["loader", "loader", "dataset", "generator", "object", "attribute"]),
             reports=[report(rng, n) for _ in range(steps)], second=dp * nodes == 1 and workers == 0 and rng.random() < 0.8, second_mixture=("arbitrary", 2, None), scratch=str(ctx.dir("scratch")))
    for k, on in (("several_groups", dp > 1), ("several_nodes", nodes > 1), ("hf_ranks", hf), ("torch_ranks", not hf), ("worker_processes", workers > 0), ("held_" + s["holder"], True), ("second_jobs", s["second"])):
        ctx.count(k, on)
    got = run(ctx, st, where, s)
    last = judge(ctx, s, got, w, alg)
    if last is not None and server and rng.random() < 0.7:
        server.stop()
        server = srv.Server(st.server, w.home)
        alg.write_text("", "ascii")
        n2 = rng.choice([2, 6])
        s2 = dict(s, restore=last, steps=n2, first_step=s["first_step"] + steps, reports=[report(rng, n) for _ in range(n2)], rounds=[n2 - 1] if rng.random() < 0.5 else [], second=False,
                  scratch=str(ctx.dir("scratch")))
        s2["paths"] = [str(ctx.dir("chk")) for _ in s2["rounds"]]
        got = run(ctx, st, (server.port,), s2)
        judge(ctx, s2, got, w, alg)
        ctx.count("recovered_trainings")
    if server:
        ctx.check(server.alive(), "the server died", "server-died", log=server.log()[-2000:])
        server.stop()
    ctx.sample({k: s[k] for k in ("dp", "nodes", "tp", "workers", "kind", "holder", "steps", "rounds")})


def run(ctx, st, where, s):
    ctx.note(spec={k: str(v)[:300] for k, v in s.items()})
    try:
        got = st.nodes.call("vh.loaders:run_nodes", where, s, str(ctx.scratch_root), "vh.ranks:rank")
    except proc.ChildError as e:
        proc.judge(ctx, e)
    out = {}
    bad = {n: r for n, r in got.items() if r[0] != "ok"}
    # A rank whose process failed breaks the rendezvous of the others: blame the one that failed itself
    for n, r in sorted(bad.items(), key=lambda x: x[1][0] == "exc" and x[1][1] == "BrokenBarrierError"):
        if r[0] == "died":
            ctx.fail(f"the process of rank {n} died", "died", log=st.nodes.log.read_text("utf-8", "replace")[-2500:])
        ctx.fail(f"rank {n}: unexpected {r[1]}: {r[2][:400]}", f"raises-{r[1]}", traceback=r[3], blamed=r[4])
    for n, r in sorted(got.items()):
        out[n] = r[1]
    return out


def nums(spec):
    return None if spec[0] is None else [float(x) for x in spec[1]]


def judge(ctx, s, got, w, alg):
    """Returns the directory of the last checkpoint."""
    due = Counter()
    rounds = {}
    for (dp, nd), r in sorted(got.items()):
        who = f"rank dp={dp} node={nd} (tp={nd % s['tp']})"
        designated = dp == 0 and nd % s["tp"] == 0
        expected_calls = 0
        for ev in r["events"]:
            if ev[0] == "feedback":
                _, job, step, rep, lo, hi, calls, exact, ended = ev
                if not designated:
                    ctx.check(not calls, f"{who} reports although it is not to", "who", calls=str(calls)[:600])
                    ctx.count("feedback_withheld")
                else:
                    expected_calls += 1
                    ctx.check(len(calls) == 1 and calls[0][0] == "feedback", f"{who}: one call of the helper leads to {len(calls)} calls to the job", "once", calls=str(calls)[:600])
                    _, j, t, mid, losses, counts, res = calls[0]
                    ctx.check(j == job, f"{who} reports to job {j}, its data is of job {job}", "job")
                    ctx.check(t == step, f"{who} reports step {t}, called with {step}", "step")
                    ctx.check(losses == nums(rep[0]), f"{who} reports other losses than it was given ({rep[0][0]})", "losses", got=losses, want=nums(rep[0]))
                    ctx.check(counts == nums(rep[1]), f"{who} reports other counts than it was given ({rep[1][0]})", "counts", got=counts, want=nums(rep[1]))
                    low = hi if exact else max(lo, 0)
                    ctx.check(low <= mid <= hi, f"{who} reports mixture {mid}, the newest it has received is {hi if exact else (low, hi)}", "mixture", ended=ended)
                    ctx.check(res is True, f"{who}: the job does not accept the report", "refused")
                    ctx.count("mixture_ids_exact" if exact else "mixture_ids_bounded")
                    ctx.count("changed_mixtures", mid > 0)
                    ctx.count("after_end", ended)
                    ctx.count("feedback_sent")
                    if losses is not None and counts is not None and job == s["job"]:
                        due[(tuple(losses), tuple(counts), mid)] += 1
            elif ev[0] == "checkpoint":
                _, k, calls, text, status, disk, done = ev
                expected_calls += 1
                ctx.check(len(calls) == 1 and calls[0][0] == "checkpoint", f"{who}: one call of the helper leads to {len(calls)} calls to the job", "once", calls=str(calls)[:600])
                _, j, d, n, sent, cid = calls[0]
                ctx.check((j, d, n) == (s["job"], dp, nd), f"{who} takes part in a checkpoint of job {j} as group {d}, node {n}", "checkpoint-who")
                ctx.check(status is None or sent == status, f"{who} reports positions {sent}, its workers are at {status}", "checkpoint-positions")
                ctx.check(done == [True], f"{who}: the helper returns before the checkpoint is complete", "checkpoint-incomplete", cid=cid)
                rounds.setdefault(k, []).append((who, cid, text, disk))
            else:
                what, err, calls, files = ev
                ctx.check(not calls, f"{who}: {'an object without Mixtera data' if what == 'plain' else 'an invalid call'} leads to calls to the job", "foreign", what=what, calls=str(calls)[:600])
                ctx.check(not files, f"{who}: a checkpoint file appears for data that is not of Mixtera", "foreign", files=files)
                if what == "plain":
                    ctx.check(err is None, f"{who}: the helpers fail for an object without Mixtera data: {err}", "foreign")
                    ctx.count("foreign_objects")
                else:
                    ctx.check(err is not None, f"{who}: an invalid call ({what}) goes unnoticed", "invalid")
                    ctx.count("refused_steps" if what == "negative" else "refused_directories")
            ctx.evaluated()
            if r["taken"]:
                ctx.distinct(s["kind"], s["holder"], s["dp"], s["nodes"], s["tp"], s["workers"], dp, nd, ev[0], str(ev[3])[:60] if ev[0] == "feedback" else None, s["mixture"][0])
        ctx.check(len(r["calls"]) == expected_calls, f"{who}: {len(r['calls'])} calls to the job, {expected_calls} are explained by calls of the helpers", "once")
    if s["mixture"][0] == "dynamic":
        seen = Counter()
        for line in alg.read_text("ascii").splitlines():
            losses, counts, mid = json.loads(line)
            seen[(tuple(losses), tuple(counts), mid)] += 1
        ctx.check(seen == due, "what arrives at the mixing algorithm is not what the designated ranks reported", "arrives", missing=str(list((due - seen).items())[:3]), extra=str(list((seen - due).items())[:3]))
        ctx.count("reports_at_algorithm", sum(seen.values()))
    ids, last = [], None
    for k, rs in sorted(rounds.items()):
        ctx.check(len(rs) == s["dp"] * s["nodes"], "not every rank takes part in a checkpoint", "checkpoint-ids", ranks=str(rs)[:500])
        cids = {cid for _, cid, _, _ in rs}
        ctx.check(len(cids) == 1 and all(cids), f"the ranks get different checkpoint ids: {sorted(map(str, cids))}", "checkpoint-ids")
        texts = {t for _, _, t, _ in rs}
        ctx.check(texts == cids, f"the file names checkpoint {texts}, the ranks got {cids}", "checkpoint-file")
        ctx.check(not cids & set(ids), f"checkpoint id {cids} is used again", "checkpoint-ids")
        ids += cids
        last = s["paths"][k]
        ctx.count("checkpoint_rounds")
        ctx.count("checkpoint_ids_compared", len(rs))
    if rounds and s["wait"]:
        final = ranks.tree(s["home"])
        for who, cid, _, disk in rounds[max(rounds)]:
            ctx.check(disk == final, f"{who} was to wait for the disk, but the checkpoint changed after the helper had returned", "checkpoint-disk", cid=cid,
                      changed=str(sorted(set(disk.items()) ^ set(final.items())))[:600])
            ctx.count("disk_compared")
    return last


def finish(ctx, st):
    st.server.close()
    st.nodes.close()
