"""P06: the same job yields the same sample sequence every time."""
import os
import random
import shutil

from vh import acc, gen, jobs, proc, tok
from vh.props.p01 import build_world

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: trace equality of repeated executions under other hash seeds, processes, caches, random noise and listing orders"
NOTE = ("every job is executed at least three times (fresh and long-running processes, hash seed 0 and random ones, computed and cached, disturbed "
        "random generators, permuted listing orders) and the complete traces are compared")
RULE = ("an evaluation is one comparison of two complete traces (chunks with rows, and the streamed samples) of the same job; distinct by job "
        "description and trace; non-trivial: at least two samples were streamed")
ASSUMPTIONS = ["domains listed in another order are compared by the content of the chunks, and only if rounding gives the same row counts",
               "same collection means the same database content and the same files at the same paths"]
CASES = {"quick": 36, "thorough": 1100}
BUDGET = {"quick": 75, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 120
MUST_OBSERVE = ["compared_other_hashseed", "compared_cached", "compared_permuted", "compared_fresh_process", "compared_other_cores", "samples_streamed", "streams_window",
                "streams_parallel", "streams_token"]
MIN_EVALUATIONS = {"quick": 60, "thorough": 600}


class State:
    a = b = None
    n = 0


def setup(ctx):
    from vh.boot import boot

    boot()
    tok.save(ctx.scratch_root / "tok")
    return State()


def stream_options(rng, ctx):
    kind = rng.choice(["simple", "simple", "window", "window", "token", "parallel"])
    o = {"chunk_reading_prefetch_first_sample": rng.random() < 0.5}
    if kind == "window":
        o.update(chunk_reading_mixture_type="window", chunk_reading_window_size=rng.choice([1, 3, 8, 64]),
                 chunk_reading_window_best_effort=rng.random() < 0.5)
    elif kind == "token":
        o.update(chunk_reading_mixture_type="token", chunk_reading_tokenizer=str(ctx.scratch_root / "tok"), chunk_reading_sequence_len=rng.choice([4, 11, 32]),
                 chunk_reading_tokenization_bs=rng.choice([1, 3, 100]), chunk_reading_token_separate_thread=rng.random() < 0.5,
                 chunk_reading_token_overlapping=rng.random() < 0.5)
    elif kind == "parallel":
        o.update(chunk_reading_degree_of_parallelism=rng.choice([2, 3]))
    return kind, o


def noise(seed):
    import numpy as np

    random.seed(seed)
    np.random.seed(seed % 2**32)
    for _ in range(seed % 5):
        random.random()
        np.random.rand()


def permuted(spec: jobs.MixSpec, rng) -> jobs.MixSpec:
    order = list(spec.order)
    rng.shuffle(order)
    return jobs.MixSpec(spec.kind, spec.chunk_size, spec.strict, spec.shares, order)


def shuffled_key(domain, rng):
    from mixtera.core.query.mixture import MixtureKey

    items = [(k, rng.sample(list(v), len(v))) for k, v in domain]
    rng.shuffle(items)
    return MixtureKey(dict(items))


def mixture_of(spec, rng):
    from mixtera.core.query.mixture import StaticMixture

    if rng is None or spec.kind != "static":
        return jobs.make_mixture(spec)
    return StaticMixture(chunk_size=spec.chunk_size, strict=spec.strict,
                         mixture={shuffled_key(d, rng): spec.shares[d] for d in spec.order})


def rows_of(spec):
    return {gen.key_tuple(k): v for k, v in jobs.make_mixture(spec).mixture_in_rows().items()}


def trace(home, parsers, todo, noise_seed=None, perm_seed=None, other_plans=(), prefix="j", cores=None):
    """Executes the jobs and returns for each the chunks and the streamed samples."""
    from mixtera.core.client import MixteraClient

    client = MixteraClient.from_directory(home)
    if cores is not None:  # a machine of another size
        os.cpu_count = lambda: cores
        client._mdc._connection.execute(f"SET threads TO {max(1, cores // 2)}")
    rng = None if perm_seed is None else random.Random(perm_seed)
    out = []
    for n, (plan, spec, dims, opts) in enumerate(todo):
        if noise_seed is not None:
            noise(noise_seed + n)
        for m, p in enumerate(other_plans):
            o = f"{prefix}o{n}_{m}"
            client.execute_query(gen.build_query(o, p), acc.exec_args(jobs.make_mixture(jobs.MixSpec("arbitrary", 3))))
            next(iter(acc.chunks_of(client, o)))
        m_spec = spec if rng is None else permuted(spec, rng)
        if m_spec.kind == "static" and rows_of(m_spec) != rows_of(spec):
            m_spec = spec  # listed this way, a tie in rounding goes to another domain: another mixture
        res = []
        for run in ("chunks", "stream"):
            if noise_seed is not None:
                noise(noise_seed * 3 + n)
            job = f"{prefix}{run}{n}"
            use = m_spec if run == "chunks" else spec  # the order of domains may decide the order within a chunk, not its content
            ok = client.execute_query(gen.build_query(job, plan), acc.exec_args(mixture_of(use, rng), *dims))
            assert ok, "execute_query returned False"
            per = []
            for dp in range(dims[0]):
                for wk in range(dims[2]):
                    seq = []
                    if run == "chunks":
                        for c in acc.chunks_of(client, job, dp, 0, wk):
                            if noise_seed is not None:
                                noise(noise_seed + len(seq))
                            t = jobs.trace_chunk(c)
                            seq.append((t.mixture_id, sorted(t.rows.items()), sorted(t.ids.items()), list(t.rows)))
                    else:
                        for _, kid, s in acc.stream(client, job, dp, 0, wk, **opts):
                            if noise_seed is not None and len(seq) % 7 == 0:
                                noise(noise_seed + len(seq))
                            seq.append((kid, s))
                    per.append(seq)
            res.append(per)
        out.append(res)
    con = client._mdc._connection
    con.close()
    return out


def run_case(ctx, st, i):
    rng = ctx.rng
    w = build_world(ctx, rng, formats=("jsonl", "jsonl", "parquet", "web"))
    allsamples = w.samples()
    cols = w.columns()
    todo, other = [], []
    for _ in range(3):
        plan = gen.random_query(rng, cols) if rng.random() < 0.5 else []
        sel = [s for s in allsamples if gen.selects(plan, s.meta, cols)]
        if not sel:
            continue
        spec = jobs.random_mixture(rng, [gen.domain_of(s.meta) for s in sel], overlap=rng.random() < 0.3, chunk_sizes=(2, 5, 7, 16, 29, 60), max_domains=6)
        if rng.random() < 0.3 and spec.kind == "static":  # equal shares that do not divide the chunk size: rounding must not depend on order
            spec.shares = {d: 1 / len(spec.shares) for d in spec.shares}
        dims = rng.choice([(1, 1, 1), (1, 1, 1), (1, 1, 2), (2, 1, 1)])
        kind, opts = stream_options(rng, ctx)
        if kind == "token" and spec.kind == "arbitrary":
            opts, kind = {}, "simple"
        ctx.count(f"streams_{kind}")
        todo.append((plan, spec, dims, opts))
    if not todo:
        return
    for _ in range(2):
        p = gen.random_query(rng, cols)
        if any(gen.selects(p, s.meta, cols) for s in allsamples):
            other.append(p)
    w.close()
    home2 = w.root / "mixtera2"
    shutil.copytree(w.home, home2)
    describe = [(p, s.describe(), d, {k: v for k, v in o.items() if "tokenizer" not in k}) for p, s, d, o in todo]
    ctx.note(jobs=describe)
    if st.a is None or st.n % 4 == 0:
        if st.a:
            st.a.close()
        st.a = proc.Child(ctx.scratch_root, hashseed=0, name="a")
    if st.b is None or st.n % 16 == 0:
        if st.b:
            st.b.close()
        st.b = proc.Child(ctx.scratch_root, hashseed=rng.randrange(1, 2**32), name="b")
    fresh = st.n % 4 == 0
    st.n += 1
    try:
        ta = st.a.call("vh.props.p06:trace", w.home, None, todo)
        cores = rng.choice([2, 5, 7, 16])
        ctx.count("compared_other_cores")
        st.b.send("vh.props.p06:trace", w.home, None, todo, noise_seed=i + 17, prefix="k", cores=rng.choice([None, 4, 6, 12, 24]))
        tc = trace(home2, None, todo, perm_seed=i, noise_seed=i, other_plans=other, cores=cores)
        tb = st.b.recv()
    except proc.ChildError as e:
        proc.judge(ctx, e)
    except proc.ChildDied as e:
        ctx.fail(f"the process executing the job died: {e}", "crash")
    for n, job in enumerate(describe):
        ctx.note(job=job)
        compare(ctx, ta[n], tb[n], "recomputed with another hash seed / random state, result cached", ids=True)
        ctx.count("compared_other_hashseed")
        ctx.count("compared_cached")
        if fresh:
            ctx.count("compared_fresh_process")
        compare(ctx, ta[n], tc[n], "executed in another process, listing orders permuted, after other queries", ids=False)
        ctx.count("compared_permuted" if todo[n][1].kind == "static" and len(todo[n][1].order) > 1 else "compared_other_process")
        total = sum(len(x) for x in ta[n][1])
        ctx.count("samples_streamed", total)
        ctx.count("chunks", sum(len(x) for x in ta[n][0]))
        if total > 1:
            ctx.distinct(job, ta[n])
        ctx.sample(dict(job=job, chunks=sum(len(x) for x in ta[n][0]), samples=total))


def compare(ctx, a, b, what, ids):
    for ca, cb in zip(a[0], b[0]):
        for n, (x, y) in enumerate(zip(ca, cb)):
            ctx.check(x[0] == y[0] and x[1] == y[1], f"chunk {n} differs when {what}", "chunks-differ", first=x, second=y)
            if ids:
                ctx.check(x[2] == y[2], f"domain ids of chunk {n} differ when {what}", "ids-differ", first=x[2], second=y[2])
        ctx.check(len(ca) == len(cb), f"the number of chunks differs when {what}", "chunks-differ", first=len(ca), second=len(cb))
    for sa, sb in zip(a[1], b[1]):
        if not ids:
            sa, sb = [x[1] for x in sa], [x[1] for x in sb]
        for n, (x, y) in enumerate(zip(sa, sb)):
            ctx.check(x == y, f"sample {n} of the stream differs when {what}", "stream-differs", first=sa[max(0, n - 2):n + 3], second=sb[max(0, n - 2):n + 3])
        ctx.check(len(sa) == len(sb), f"the number of streamed samples differs when {what}", "stream-differs", first=len(sa), second=len(sb))
    ctx.evaluated()
