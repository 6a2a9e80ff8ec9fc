"""P11: windowed reading keeps the mixture within every window."""
from collections import Counter

from vh import acc, gen, jobs
from vh.props.p10 import read

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: window-by-window oracle on the stream of real chunks (shares, completeness, stopping, termination)"
NOTE = ("held on the executed chunks and window sizes; the share of a domain in a window is compared with its share of the chunk, "
        "allowing less than one sample of rounding per domain, all of it in favour of one domain")
RULE = ("an evaluation is one windowed read of a chunk; non-trivial: at least two domains; distinct by the domain counts of the chunk, "
        "window size and mode; every complete window is judged")
ASSUMPTIONS = ["a window larger than the chunk means the chunk, a non-positive window size means 128"]
CASES = {"quick": 90, "thorough": 2500}
BUDGET = {"quick": 70, "thorough": 620}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 60
MUST_OBSERVE = ["windows_judged", "best_effort_reads", "strict_reads", "strict_partial", "domains_below_one_per_window"]
MIN_EVALUATIONS = {"quick": 400, "thorough": 4000}


def setup(ctx):
    from vh.boot import boot

    boot()


def run_case(ctx, state, i):
    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    nd = rng.choice([1, 2, 2, 3, 4, 5, 7])
    values = [f"v{k}" for k in range(nd)]
    prop = gen.PropSpec("language", "STRING", False, False, tuple(values))
    metas = []
    for v in values:
        metas.append([{"language": v}] * rng.choice([4, 15, 40, 90]))
    if rng.random() < 0.5:  # interleave the domains within files
        flat = [m for ms in metas for m in ms]
        rng.shuffle(flat)
        metas = [flat[: len(flat) // 2], flat[len(flat) // 2:]]
    ds = w.make_dataset("d", [prop], [len(m) for m in metas], fmt=rng.choice(["jsonl", "jsonl", "parquet"]), metas=metas)
    ctx.check(w.register(ds), "registration failed")
    where = {jobs.location(w, s): s for s in ds.samples}
    doms = [gen.domain_of(s.meta) for s in ds.samples]
    for q in range(3):
        spec = jobs.random_mixture(rng, doms, kinds=("static", "static", "static", "inferring", "arbitrary"), chunk_sizes=(5, 10, 29, 60, 100, 200),
                                   strict=rng.random() < 0.4, max_domains=nd)
        ctx.note(mixture=spec.describe(), have=dict(Counter(map(str, doms))))
        ctx.check(w.client.execute_query(gen.build_query(f"j{q}", []), acc.exec_args(jobs.make_mixture(spec))), "execute_query reported failure")
        for cn, chunk in enumerate(acc.chunks_of(w.client, f"j{q}")):
            if cn >= 3:
                break
            t = jobs.trace_chunk(chunk)
            counts = {t.ids[d]: len(r) for d, r in t.rows.items() if r}
            want = Counter((t.ids[d], where[r].text) for d, rows in t.rows.items() for r in rows)
            n = sum(counts.values())
            for size in rng.sample([1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 29, 50, 100, 128, 1000, 0, n, max(1, n // 2)], 4):
                for best in (True, False):
                    prefetch = rng.random() < 0.3
                    opts = dict(chunk_reading_mixture_type="window", chunk_reading_window_size=size, chunk_reading_window_best_effort=best,
                                chunk_reading_prefetch_first_sample=prefetch)
                    if rng.random() < 0.04:
                        opts["chunk_reading_degree_of_parallelism"] = 2
                    ctx.note(options=opts, counts=counts)
                    with ctx.cpu_limit(10, f"windowed reading with {opts} of a chunk with {counts}", "endless-read"):
                        out = read(ctx, w, chunk, limit=n, **opts)
                    judge(ctx, out, counts, want, n, size, best)
                    ctx.evaluated()
                    if len(counts) > 1:
                        ctx.distinct(sorted(counts.items()), size, best)
            if cn == 0 and q == 0:
                ctx.sample(dict(mixture=spec.describe(), counts=counts))
    w.close()


def judge(ctx, out, counts, want, n, size, best):
    got = Counter((x[1], x[2]) for x in out)
    ctx.check(not got - want, "windowed reading repeats or invents samples", "read-content", extra=[k for k in list(got - want)[:3]])
    ctx.check([x[0] for x in out] == list(range(len(out))), "samples are not numbered consecutively", "numbering")
    w = n if size > n else size
    w = 128 if w < 1 else w
    share = {k: w * c / n for k, c in counts.items()}
    if any(s < 1 for s in share.values()):
        ctx.count("domains_below_one_per_window")
    keys = [x[1] for x in out]
    left = dict(counts)
    per_window = None
    whole = pos = 0
    while pos + w <= len(keys):
        c = Counter(keys[pos:pos + w])
        for k, v in c.items():
            left[k] -= v
        shown = dict(window={k: c[k] for k in counts}, share=share, position=pos, size=w, left=dict(left))
        if per_window is None:
            problem = None
            if any(c[k] <= share[k] - 1 - 1e-9 for k in counts):
                problem = "a domain has less than its share"
            elif sum(c[k] >= share[k] + 1 - 1e-9 for k in counts) > 1:
                problem = "several domains have more than their share"
            if problem is not None:
                ctx.check(best and any(v == 0 for v in left.values()), f"the first window does not keep the mixture: {problem}", "window-share", **shown)
                break
            per_window = c
        elif c != per_window:
            ctx.check(best and any(left[k] == 0 and c[k] < per_window[k] for k in counts),
                      "a window holds other domain counts than the first one although no domain ran out", "window-share",
                      first=dict(per_window), **shown)
            break
        ctx.count("windows_judged")
        whole += 1
        pos += w
    if best:
        ctx.count("best_effort_reads")
        ctx.check(got == want, f"best-effort windowed reading delivers {len(out)} of {n} samples", "undelivered", missing=[k for k in list(want - got)[:4]])
        return
    ctx.count("strict_reads")
    possible = min(counts[k] // v for k, v in per_window.items()) if per_window else 0
    ctx.check(whole >= possible, f"reading stopped after {whole} of {possible} possible complete windows", "stopped-early",
              per_window=dict(per_window or {}))
    ctx.check(len(out) < (possible + 1) * w, f"reading went on after the first window that cannot be filled: {len(out)} samples, "
              f"{possible} complete windows of {w}", "not-stopped")
    if len(out) < n:
        ctx.count("strict_partial")
