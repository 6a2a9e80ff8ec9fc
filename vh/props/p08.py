"""P08: a restored checkpoint continues exactly where the job stood."""
import shutil

from vh import acc, gen, play, proc, train
from vh.props.p01 import build_world

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: prefix/suffix oracle comparing every restored run with the recorded uninterrupted run of the same request schedule"
NOTE = ("held on the executed schedules: every consumer's samples before and after each checkpoint and each restore (same process, fresh process, chains of restores) "
        "are compared one by one with an uninterrupted run")
RULE = ("an evaluation is one run compared with the uninterrupted run: the run that takes the checkpoints, or a run restored from one of them; distinct by layout, "
        "mixture, positions and restore chain; non-trivial: at least one sample was received after the checkpoint")
ASSUMPTIONS = ["all nodes of a group stand at the same sample when they report (drift is resolved to the maximum by design)",
               "no request is under way while the checkpoint is taken",
               "for mixtures that change by feedback only positions before the first end of a stream are used: failed attempts to build a strict chunk drop data"]
CASES = {"quick": 63, "thorough": 1400}
BUDGET = {"quick": 110, "thorough": 640}
SHARDS = {"quick": 7, "thorough": 8}
CASE_CPU = 120
MUST_OBSERVE = ["restores", "restores_fresh_process", "restores_of_restores", "samples_after_restore", "checkpoints_before_first_sample", "checkpoints_at_chunk_end",
                "checkpoints_mid_chunk", "checkpoints_after_feedback", "refusals", "checkpoints_after_end", "checkpoints_after_eviction", "checkpoints_cache_disabled",
                "checkpoints_after_several_changes", "local_checkpoints_after_restore", "refusals_one_chunk", "refusals_because_of_last", "jobs_with_many_checkpoints", "failed_checkpoints"]
MIN_EVALUATIONS = {"quick": 80, "thorough": 800}


class State:
    child = None
    n = 0


def setup(ctx):
    from vh.boot import boot

    boot()
    return State()


def segments(rng, dims, mix, domains, plenty=False):
    """Takes and feedback of every segment; all nodes of a group take the same number of samples."""
    dp, nodes, workers = dims
    out = []
    step = 0
    if mix.kind in ("dynamic", "schedule") and rng.random() < (0.9 if plenty else 0.5):  # every mixture gives some chunks before the next report
        for _ in range(rng.choice([3, 4, 5, 6])):
            step += rng.choice([1, 2, 3])
            k = mix.chunk_size * rng.choice([1, 1, 2]) + rng.choice([0, 0, 1])
            acts = [("take", (d, n, w)) for d in range(dp) for w in range(max(1, workers)) for n in range(nodes) for _ in range(k)]
            losses, counts = None, None
            if mix.kind == "dynamic":
                losses, counts = [round(rng.random() * 5, 2) for _ in range(domains)], [rng.randrange(1, 50) for _ in range(domains)]
            out.append(acts + [("feedback", step, losses, counts, None)])
        return out
    for _ in range(rng.choice([2, 3, 3, 4])):
        takes = []
        style = rng.choice(["none", "few", "chunk", "mixed", "mixed", "far"])
        for d in range(dp):
            for w in range(max(1, workers)):
                k = {"none": 0, "few": rng.randrange(0, 3), "chunk": mix.chunk_size * rng.choice([1, 1, 2, 3]), "far": rng.choice([5, 60, 400]),
                     "mixed": rng.choice([0, 1, mix.chunk_size - 1, mix.chunk_size, mix.chunk_size + 1, rng.randrange(0, 20)])}[style]
                for n in range(nodes):
                    takes += [(d, n, w)] * max(0, k)
        if rng.random() < 0.5:
            rng.shuffle(takes)
        acts = [("take", c) for c in takes]
        if mix.kind in ("dynamic", "schedule"):
            for _ in range(rng.choice([0, 1, 1, 2])):
                step += rng.choice([1, 1, 2, 5])
                losses = counts = None
                if mix.kind == "dynamic":
                    m = rng.randrange(1, domains + 1)
                    losses, counts = [round(rng.random() * 5, 2) for _ in range(m)], [rng.randrange(1, 50) for _ in range(m)]
                at = rng.choice([0, len(acts), len(acts), rng.randrange(len(acts) + 1)])
                acts.insert(at, ("feedback", step, losses, counts, rng.randrange(0, 4)))
        out.append(acts)
    return out


def run_case(ctx, st, i):
    rng = ctx.rng
    plenty = i % 3 == 1  # enough data for several mixtures one after the other
    w = train.build_data(ctx, rng, per_domain=rng.choice([40, 80, 120]))[0] if plenty else build_world(ctx, rng, formats=("jsonl", "jsonl", "parquet"))
    doms = [gen.domain_of(s.meta) for s in w.samples()]
    drop = i % 4 == 0
    kinds = dict(kinds=("arbitrary", "static", "inferring")) if drop else dict(kinds=("schedule", "dynamic"), entries=(3, 4, 5)) if plenty else {}
    mix = play.random_mix(rng, doms, overlap=rng.random() < 0.2, **kinds)
    dims = rng.choice([(1, 1, 0), (1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 2), (2, 2, 1), (1, 3, 2), (2, 2, 2), (1, 2, 3)] + [(1, 1, 0), (1, 1, 1)] * (2 * plenty))
    server = not (dims == (1, 1, 0) and rng.random() < 0.7)
    opts = rng.choice([{}, {"chunk_reading_prefetch_first_sample": False},
                       dict(chunk_reading_mixture_type="window", chunk_reading_window_size=rng.choice([2, 5]), chunk_reading_window_best_effort=rng.random() < 0.5)])
    segs = segments(rng, dims, mix, min(6, len(set(doms))), plenty)
    drain = ("drain", i)
    log = dims[0] * dims[1] * max(1, dims[2]) == 1
    kw = dict(dims=dims, opts=opts, server=server, log=log)
    ctx.note(mixture=mix.describe(), dims=dims, server=server, options=opts, segments=[[a if a[0] != "take" else str(a[1]) for a in s][:60] for s in segs])
    # another job first: the cached result then carries the ids of another mixture
    pre = []
    if rng.random() < 0.5:
        other = play.random_mix(rng, doms, kinds=("static", "arbitrary"))
        pre = [play.play(w.home, "other", [("exec", [], other)], client=w.client)]
    ref = play.play(w.home, "ref", [("exec", [], mix)] + [a for s in segs for a in s] + [drain], client=w.client, **kw)["out"][1:]
    flat = [a for s in segs for a in s]
    ends = [n for n, r in enumerate(ref[:-1]) if r == ("end",)]
    if ends and mix.kind in ("dynamic", "schedule"):
        cut = ends[0]
        n, short = 0, []
        for s in segs:
            short.append(s[:max(0, cut - n)])
            n += len(s)
        segs = [s for s in short if s]
        flat = [a for s in segs for a in s]
        if not segs or unbalanced(flat, dims):
            ctx.skipped += 1
            return
        ref = play.play(w.home, "ref2", [("exec", [], mix)] + flat + [drain], client=w.client, **kw)["out"][1:]
    marks = []
    n = 0
    for s in segs:
        marks.append(n)  # position in the flat schedule at which the checkpoint is taken
        n += len(s)
    marks.append(n)
    labels = sorted(set(rng.sample(range(len(marks)), rng.randrange(1, min(3, len(marks)) + 1)) + [len(marks) - 1 - rng.randrange(2)] * plenty))
    wait = rng.random() < 0.6
    slow = not wait and rng.random() < 0.5
    nodes = [(d, k) for d in range(dims[0]) for k in range(dims[1])]


    def with_checkpoints(start, use, base=0):
        acts, origin = [], []
        for m in range(start, len(marks)):
            if m in use:
                order = list(nodes)
                rng.shuffle(order)
                acts.append(("checkpoint", (base, m), order, wait, slow))
            if m < len(segs):
                acts += segs[m]
        return acts

    main = with_checkpoints(0, labels)
    job = "run"
    if drop:
        evicted(ctx, rng, w, mix, dims, kw, min(6, len(set(doms))))
        w.close()
        ctx.sample(dict(layout=dims, mixture=mix.describe(), scenario="cache dropped"))
        return
    w.close()
    if i % 21 == 5:
        if mix.kind == "dynamic":
            mix = play.random_mix(rng, doms, kinds=("arbitrary", "static", "inferring"))
        many(ctx, st, rng, w.home, mix, dims, kw)
        return
    if i % 21 in (7, 14):
        if mix.kind in ("dynamic", "schedule"):
            mix = play.random_mix(rng, doms, kinds=("arbitrary", "static", "inferring"))
        broken(ctx, st, rng, w.home, mix, dims, kw)
        return
    todo = [("exec", [], mix)] + main + [drain] + [("wait", (0, m)) for m in labels]
    home = w.home
    run = run_in(ctx, st, rng, home, job, todo, kw, {}, fresh=False)
    compare(ctx, run, todo, ref, 0, "the run that takes the checkpoints")
    observe(ctx, run, todo, mix, segs, marks, labels, ref, dims)
    ids = run["ids"]
    start = rng.choice(labels)
    chain = 0
    base = 0
    while chain < (3 if ctx.quick else 4):
        later = [m for m in range(start, len(marks)) if rng.random() < 0.5] if rng.random() < 0.7 else []
        acts = [("restore", (base, start))] + with_checkpoints(start, later, base + 1) + [drain] + [("wait", (base + 1, m)) for m in later]
        ctx.note(restored_from=(base, start), chain=chain, later=later)
        fresh = rng.random() < 0.6
        res = run_in(ctx, st, rng, home, job, acts, kw, ids, fresh)
        got = compare(ctx, res, acts, ref, marks[start], f"a run restored from checkpoint {start} (restore {chain + 1} in a row)")
        ctx.count("restores")
        ctx.count("restores_fresh_process", fresh)
        ctx.count("restores_of_restores", chain > 0)
        ctx.count("samples_after_restore", got)
        ctx.count("local_checkpoints_after_restore", not server and bool(later))
        if got:
            ctx.distinct(mix.describe(), dims, marks, start, chain, later, got)
        ids = res["ids"]
        chain += 1
        if later and rng.random() < 0.8:
            base, start = base + 1, rng.choice(later)
        elif rng.random() < 0.5:
            base, start = base, start
            start = rng.choice([m for b, m in ids if b == base])
        else:
            break
    if dims[1] > 1:
        if mix.kind in ("dynamic", "schedule"):
            mix = play.random_mix(rng, doms, kinds=("arbitrary", "static", "inferring"), strict=False)
        refusal(ctx, st, rng, home, mix, dims, kw)
    elif i % 2:
        if mix.kind in ("dynamic", "schedule"):
            mix = play.random_mix(rng, doms, kinds=("arbitrary", "static", "inferring"), strict=False)
        three = rng.choice([(1, 3, 1), (2, 3, 1), (1, 4, 1)])
        refusal(ctx, st, rng, home, mix, three, dict(kw, dims=three, server=True, log=False))
    ctx.sample(dict(layout=dims, mixture=mix.describe(), positions=marks, checkpoints=labels, restores=chain))


def evicted(ctx, rng, w, mix, dims, kw, domains):
    """The collection changes after the job started and the same query is executed again: the cached result is replaced or removed."""
    kw = dict(kw, log=False)  # executing another job resets the client's mixture id
    segs = segments(rng, dims, mix, domains)
    flat = [a for s in segs for a in s]
    ref = play.play(w.home, "eref", [("exec", [], mix)] + flat + [("drain", 3)], client=w.client, **kw)["out"][1:]
    nodes = [(d, k) for d in range(dims[0]) for k in range(dims[1])]
    disabled = ctx.case % 12 == 0
    again = not disabled and rng.random() < 0.6

    def disturb(client):
        if disabled:
            return
        ds = w.make_dataset(f"late{ctx.case}", w.datasets[0].props, [rng.randrange(1, 30)])
        ctx.check(w.register(ds) is True, "registration failed")
        for n in range(2 if again else 1):
            client.execute_query(gen.build_query(f"eother{n}", []), acc.exec_args(mix.build()))

    cut = rng.randrange(len(flat) + 1)
    while cut and unbalanced(flat[:cut], dims):
        cut -= 1
    if disabled:
        w.client._query_cache.enabled = False
    acts = [("exec", [], mix)] + flat[:cut] + [("call", disturb), ("checkpoint", "c", nodes, True)] + flat[cut:] + [("drain", 3)]
    ctx.note(evicted=dict(cut=cut, again=again, cache_disabled=disabled))
    run = play.play(w.home, "erun", acts, client=w.client, **kw)
    compare(ctx, run, acts, ref, 0, "the run with a checkpoint after the cached result was dropped")
    acts = [("restore", "c")] + flat[cut:] + [("drain", 3)]
    run = play.play(w.home, "erun", acts, client=w.client, prefix_ids=run["ids"], **kw)
    compare(ctx, run, acts, ref, cut, "a run restored from a checkpoint after the cached result was dropped")
    w.client._query_cache.enabled = True
    ctx.count("checkpoints_cache_disabled" if disabled else "checkpoints_after_eviction")


def broken(ctx, st, rng, home, mix, dims, kw):
    """A checkpoint that cannot be written is never reported as complete and does not disturb the job, earlier or later checkpoints."""
    nodes = [(d, k) for d in range(dims[0]) for k in range(dims[1])]
    part = lambda: [("take", (d, k, x)) for d in range(dims[0]) for x in range(max(1, dims[2])) for n in [rng.choice([0, 1, mix.chunk_size, 3])] for k in range(dims[1]) for _ in range(n)]  # noqa: E731
    parts = [part() for _ in range(4)]
    flat = sum(parts, [])
    ref = play.play(home, "bref", [("exec", [], mix)] + flat + [("drain", 4)], **kw)["out"][1:]
    acts = [("exec", [], mix)] + parts[0] + [("checkpoint", "a", nodes, True)] + parts[1] + [("broken", "a", nodes, "b")] + parts[2] + [("checkpoint", "c", nodes, True)] + parts[3] + [("drain", 4)]
    run = play.play(home, "brun", acts, **kw)
    err = next(r for a, r in zip(acts, run["out"]) if a[0] == "broken")
    if err == "unknown layout":
        ctx.skipped += 1
        return
    ctx.note(broken=err)
    compare(ctx, run, acts, ref, 0, "the run with a checkpoint that could not be written")
    after = {"a": parts[1:], "b": parts[2:], "c": parts[3:]}
    for label in ["c", "a"] + ["b"] * (err is None):
        rest = sum(after[label], [])
        acts = [("restore", label)] + rest + [("drain", 4)]
        what = "a run restored from a checkpoint reported as complete, whose directory was taken," if label == "b" else "a run restored from a checkpoint next to one that could not be written"
        try:
            res = run_in(ctx, st, rng, home, "brun", acts, kw, run["ids"], fresh=rng.random() < 0.4)
        except Exception as e:  # pylint: disable=broad-exception-caught
            if label != "b":
                raise
            ctx.fail(f"a checkpoint was reported as complete, but cannot be restored: {e!r}", "false-completion")
        compare(ctx, res, acts, ref, len(flat) - len(rest), what)
    ctx.count("failed_checkpoints", err is not None)


def many(ctx, st, rng, home, mix, dims, kw):
    """More checkpoints than a digit can count, then restores (also of the older ones) and further checkpoints."""
    nodes = [(d, k) for d in range(dims[0]) for k in range(dims[1])]
    n = rng.choice([11, 12, 14])
    flat = [("take", (d, k, x)) for _ in range(n + 6) for d, k in nodes for x in range(max(1, dims[2]))]
    per = len(flat) // (n + 6)
    ref = play.play(home, "mref", [("exec", [], mix)] + flat + [("drain", 4)], **kw)["out"][1:]
    ids: dict = {}
    for r in range(3):
        start = rng.choice([x for b, x in ids]) if r else 0
        if r == 1:
            start = rng.choice([n - 2, n - 1, n])
        label = next((b, x) for b, x in reversed(list(ids)) if x == start) if r else None
        first = [("restore", label)] if r else [("exec", [], mix)]
        acts = list(first)
        count = n if r == 0 else rng.choice([1, 2])
        for x in range(start, start + count):
            acts += flat[x * per:(x + 1) * per] + [("checkpoint", (r, x + 1), nodes, True)]
        acts += flat[(start + count) * per:] + [("drain", 4)]
        ctx.note(many=dict(checkpoints=n, restored=label, round=r))
        run = run_in(ctx, st, rng, home, "mrun", acts, kw, ids, fresh=r and rng.random() < 0.5)
        new = {k: v for k, v in run["ids"].items() if k not in ids}
        ctx.check(len(set(run["ids"].values())) == len(run["ids"]), "a new checkpoint has the id of an existing one", "id", existing=sorted(ids.values()), new=sorted(new.values()))
        got = compare(ctx, run, acts, ref, start * per, f"a run with many checkpoints (restore {r})")
        ctx.distinct("many", mix.describe(), dims, start, r, got)
        ids = run["ids"]
    ctx.count("jobs_with_many_checkpoints")


def unbalanced(flat, dims):
    """Whether the nodes of a group took different numbers of samples."""
    counts = {}
    for a in flat:
        if a[0] == "take":
            counts[a[1]] = counts.get(a[1], 0) + 1
    return any(len({counts.get((d, n, w), 0) for n in range(dims[1])}) > 1 for d in range(dims[0]) for w in range(max(1, dims[2])))


def run_in(ctx, st, rng, home, job, acts, kw, ids, fresh):
    if not fresh:
        return play.play(home, job, acts, prefix_ids=ids, **kw)
    if st.child is None or st.n % 6 == 0:
        if st.child:
            st.child.close()
        st.child = proc.Child(ctx.scratch_root, hashseed=rng.randrange(0, 2**32), name="restore")
    st.n += 1
    try:
        return st.child.call("vh.play:play", home, job, acts, prefix_ids=ids, **kw)
    except proc.ChildError as e:
        proc.judge(ctx, e)
    except proc.ChildDied as e:
        ctx.fail(f"the process running the job died: {e}", "crash")


def compare(ctx, run, acts, ref, offset, what):
    """Takes and the final drain against the uninterrupted run, whose outputs start at `offset`."""
    n, received = offset, 0
    for a, r in zip(acts, run["out"]):
        if a[0] == "exec":
            ctx.check(r is True, "execute_query reported failure")
        if a[0] in ("take", "feedback", "drain"):
            want = ref[n]
            n += 1
            if a[0] == "drain":
                for c in want:
                    for k, (x, y) in enumerate(zip(want[c], r[c])):
                        ctx.check(x == y, f"{what}: consumer {c} received another sample than without interruption", "differs-after", position=k,
                                  want=want[c][max(0, k - 1):k + 3], got=r[c][max(0, k - 1):k + 3])
                    ctx.check(len(want[c]) == len(r[c]), f"{what}: consumer {c} received {len(r[c])} more samples instead of {len(want[c])}", "differs-after",
                              want=want[c][-2:], got=r[c][-2:])
                    received += len(r[c])
            else:
                ctx.check(r == want, f"{what}: {a[:2]} gave another result than without interruption", "differs-after", want=want, got=r)
                received += a[0] == "take" and r != ("end",)
    ctx.evaluated()
    return received


def observe(ctx, run, acts, mix, segs, marks, labels, ref, dims):
    started = ended = False
    prev = None
    for a, r in zip(acts, run["out"]):
        if a[0] == "take":
            started = True
            ended |= r == ("end",)
        if a[0] == "checkpoint":
            ctx.count("checkpoints")
            pos = [p for p in r[1].values()]
            ctx.count("checkpoints_before_first_sample", not started)
            ctx.count("checkpoints_after_end", ended)
            ctx.count("checkpoints_after_several_changes", run["changes"].get(a[1], 0) > 2)
            ctx.count("checkpoints_delayed_copy", a[4])
            ctx.count("checkpoints_at_chunk_end", any(p == mix.chunk_size for p in pos))
            ctx.count("checkpoints_mid_chunk", any(0 < p < mix.chunk_size for p in pos))
            ctx.count("checkpoints_after_feedback", prev == "feedback")
        prev = a[0]


def refusal(ctx, st, rng, home, mix, dims, kw):
    """Some nodes are a chunk ahead: the set is refused, then the others catch up and the next checkpoint works."""
    cs = mix.chunk_size
    d = rng.randrange(dims[0])
    ahead = rng.sample(range(dims[1]), rng.randrange(1, dims[1]))
    ctx.count("refusals_because_of_last", dims[1] > 2 and (ahead == [dims[1] - 1] or len(ahead) == dims[1] - 1 and dims[1] - 1 not in ahead))
    nodes = [(a, b) for a in range(dims[0]) for b in range(dims[1])]
    wid = rng.randrange(max(1, dims[2]))
    variant = rng.choice(["two", "one", "later"])
    others = [n for n in range(dims[1]) if n not in ahead]
    common = []
    if variant == "later":  # all have some chunks, then one node goes on
        common = [("take", (d, n, wid)) for n in range(dims[1]) for _ in range(cs)]
    k = cs + 1 if variant == "two" else 1
    lead = common + [("take", (d, n, wid)) for n in ahead for _ in range(k)]
    catch = [("take", (d, n, wid)) for n in others for _ in range(k)]
    order = list(nodes)
    rng.shuffle(order)
    ref = play.play(home, "rref", [("exec", [], mix)] + lead + catch + [("drain", 5)], **kw)["out"][1:]
    if ("end",) in ref[:-1]:
        return
    if variant == "later" and ref[len(lead) - 1][0] != 0:  # chunks of arbitrary mixtures may be shorter
        return
    acts = [("exec", [], mix)] + lead + [("refuse", order)] + catch + [("checkpoint", "good", order, True), ("drain", 5)]
    ctx.note(refusal=dict(ahead=(d, ahead), worker=wid, variant=variant, samples=k))
    run = run_in(ctx, st, rng, home, "rrun", acts, kw, {}, fresh=False)
    r = run["out"][1 + len(lead)]
    ctx.check(r is not None, "a checkpoint was accepted although the nodes of a group stand at different chunks", "accepted-inconsistent")
    compare(ctx, run, acts, ref, 0, "the run with a refused checkpoint")
    res = run_in(ctx, st, rng, home, "rrun", [("restore", "good"), ("drain", 5)], kw, run["ids"], fresh=rng.random() < 0.5)
    compare(ctx, res, [("restore", "good"), ("drain", 5)], ref, len(lead) + len(catch), "a run restored from the checkpoint after a refused one")
    ctx.count("refusals")
    ctx.count("refusals_one_chunk", variant in ("one", "later"))
