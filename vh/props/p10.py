"""P10: reading a chunk yields exactly its samples under every reading option."""
import json
from collections import Counter

from vh import acc, gen, jobs

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every option combination reads the same real chunks, content and numbering compared with the registered samples"
NOTE = ("held on the executed chunks and option combinations; formats jsonl (plain, gz, bz2, xz, zst), parquet (row groups of 1-50 rows) "
        "and webdataset tar files with hostile texts")
RULE = ("an evaluation is one complete read of one chunk under one option combination (parallelism 1-4, simple or best-effort windows, "
        "prefetching, start position); distinct by chunk content and options; non-trivial: at least two samples")
ASSUMPTIONS = ["one parsing function per dataset, files unchanged since registration"]
CASES = {"quick": 110, "thorough": 3000}
BUDGET = {"quick": 75, "thorough": 650}
SHARDS = {"quick": 7, "thorough": 8}
CASE_CPU = 120
MUST_OBSERVE = ["reads", "reads_skipped_part", "reads_parallel", "reads_window", "reads_prefetch", "samples_read", "raw_lines", "tall_reads"]
MIN_EVALUATIONS = {"quick": 150, "thorough": 1500}


def setup(ctx):
    from vh.boot import boot

    boot()


def make_world(ctx, rng, props=None, hostile=True, max_files=4, formats=("jsonl", "jsonl", "parquet", "parquet", "web")):
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    shared = props or gen.random_props(rng, rng.choice([1, 1, 2]))
    for d in range(rng.choice([1, 1, 2, 3])):
        fmt = rng.choice(formats)
        ext = rng.choice(["jsonl", "jsonl", "jsonl.gz", "jsonl.bz2", "jsonl.xz", "jsonl.zst"]) if fmt == "jsonl" else None
        if ext == "jsonl.zst" and "jsonl.zst" not in gen.COMPRESS:
            ext = "jsonl.gz"
        sizes = [rng.choice([1, 2, 5, 9, 23, 40]) for _ in range(rng.randrange(1, max_files + 1))]
        single = rng.random() < 0.15
        ds = w.make_dataset(f"ds{d}", shared, sizes[:1] if single else sizes, fmt=fmt, ext=ext, hostile=hostile and rng.random() < 0.7,
                            row_group=rng.choice([1, 3, 7, 50]), ascii_only=rng.random() < 0.5, trailing_newline=rng.random() < 0.7,
                            single_file=single)
        tag = f"<{d}>"
        raw = fmt == "jsonl" and rng.random() < 0.3
        if raw:
            pad_lines(rng, ds)
        ctx.check(w.register(ds, (lambda line, tag=tag: tag + line) if raw else _parsing(fmt, tag)) is True, f"registration of {ds.name} failed")
        if not raw:
            for s in ds.samples:
                s.text = tag + s.text
        else:
            for s in ds.samples:
                s.text = tag + s.line
            ctx.count("raw_lines")
    return w


def pad_lines(rng, ds):
    """Rewrites the files of a dataset with space around the JSON of some lines; the parsing function gets the lines as they are."""
    files = [ds.path] if ds.single_file else sorted(ds.path.iterdir())
    for f in files:
        mine = sorted((s for s in ds.samples if s.file == f.name), key=lambda s: s.idx)
        for k, s in enumerate(mine):
            pad = lambda: rng.choice(["", "", " ", "\t", "  "])
            s.line = pad() + json.dumps({"text": s.text, "meta": s.meta}, ensure_ascii=rng.random() < 0.5) + pad()
            if k < len(mine) - 1 or rng.random() < 0.7:
                s.line += "\n"
        f.write_bytes(gen.COMPRESS[f.name.split(".", 1)[1]]("".join(s.line for s in mine).encode("utf-8")))


def tall(ctx, which):
    """Files with very many samples, read in large chunks."""
    from mixtera.core.query.mixture import ArbitraryMixture

    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    fmt = "jsonl" if which == 2 else "parquet"
    n = 280_000 if which == 0 else 70_000 if which == 2 else rng.choice([70_000, 140_000])
    metas = [{"language": "en"}] * n
    ds = w.make_dataset("d", [gen.PropSpec("language", "STRING", False, False, ("en", "de"))], [n], fmt=fmt, metas=[metas], row_group=1_000_000 if which == 0 else rng.choice([1_000_000, 50_000, n // 2 + 1]))
    ctx.check(w.register(ds, _parsing(fmt, "")) is True, "registration of a large file failed")
    where = {s.idx: s.text for s in ds.samples}
    ctx.note(fmt=fmt, samples=n)
    ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(ArbitraryMixture(chunk_size=rng.choice([n, n - 7] if which == 0 else [n, n - 7, 40_000])))), "execute_query reported failure")
    seen = Counter()
    for chunk in acc.chunks_of(w.client, "j"):
        t = jobs.trace_chunk(chunk)
        want = Counter(where[r[1]] for rows in t.rows.values() for r in rows)
        seen.update(r[1] for rows in t.rows.values() for r in rows)
        with ctx.cpu_limit(100, "reading a large chunk", "endless-read"):
            full = read(ctx, w, chunk, limit=sum(want.values()), chunk_reading_prefetch_first_sample=False)
        ctx.check([x[0] for x in full] == list(range(len(full))), "samples are not numbered consecutively", "numbering")
        got = Counter(x[2] for x in full)
        ctx.check(got == want, f"reading a chunk of {sum(want.values())} samples gives {len(full)}, {sum((want - got).values())} are missing and {sum((got - want).values())} too many", "read-content")
        ctx.evaluated()
        ctx.count("tall_reads")
        ctx.count("samples_read", len(full))
        ctx.distinct("tall", fmt, n, len(full))
    ctx.check(seen == Counter(range(n)), f"the chunks of a file of {n} samples hold {sum(seen.values())}", "read-content")
    w.close()


def _parsing(fmt, tag):
    """A closure per dataset: the wrong dataset's function would be noticed."""
    if fmt == "jsonl":
        return lambda line: tag + json.loads(line)["text"]
    if fmt == "parquet":
        return lambda record: tag + record["text"]
    return lambda sample: tag + sample[".txt"]


def read(ctx, w, chunk, n_skip=0, limit=None, **opts):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    mix = chunk._mixture
    chunk.configure_result_streaming(client=w.client, args=ResultStreamingArgs(job_id="j", **opts))
    chunk._samples_to_skip = n_skip
    out = []
    for x in chunk:
        out.append(x)
        ctx.check(limit is None or len(out) <= limit, "reading a chunk yields more samples than it has", "endless-read")
    chunk._samples_to_skip = 0
    chunk._mixture = mix
    return out


def run_case(ctx, state, i):
    from mixtera.core.query.mixture import ArbitraryMixture

    if i % 40 == 7:
        return tall(ctx, i // 40 % 3)
    rng = ctx.rng
    w = make_world(ctx, rng)
    allsamples = w.samples()
    where = {jobs.location(w, s): s for s in allsamples}
    doms = [gen.domain_of(s.meta) for s in allsamples]
    spec = jobs.random_mixture(rng, doms, kinds=("arbitrary", "static", "static", "inferring"), overlap=False, strict=rng.random() < 0.3,
                               chunk_sizes=(3, 8, 20, 50, 200))
    ctx.note(mixture=spec.describe(), datasets=[(d.name, d.fmt, len(d.samples)) for d in w.datasets])
    mixture = jobs.make_mixture(spec) if spec.kind != "arbitrary" else ArbitraryMixture(chunk_size=spec.chunk_size)
    ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(mixture)), "execute_query reported failure")
    par_left = 2 if ctx.quick else 4
    for cn, chunk in enumerate(acc.chunks_of(w.client, "j")):
        if cn >= 4:
            break
        t = jobs.trace_chunk(chunk)
        ids = {d: n for d, n in t.ids.items()}
        want = Counter((ids[d], where[r].text) for d, rows in t.rows.items() for r in rows)
        n = sum(want.values())
        combos = []
        for prefetch in (False, True):
            combos.append(dict(chunk_reading_prefetch_first_sample=prefetch))
            combos.append(dict(chunk_reading_prefetch_first_sample=prefetch, chunk_reading_mixture_type="window", chunk_reading_window_best_effort=True,
                               chunk_reading_window_size=rng.choice([1, 2, 3, 7, 10, 128, 0])))
        rng.shuffle(combos)
        combos = combos[:3]
        if par_left and n >= 2:
            par_left -= 1
            combos.append(dict(combos[0], chunk_reading_degree_of_parallelism=rng.choice([2, 3, 4])))
        for opts in combos:
            ctx.note(options=opts, chunk=cn)
            with ctx.cpu_limit(30, f"reading a chunk with {opts}", "endless-read"):
                full = read(ctx, w, chunk, limit=n, **opts)
                judge(ctx, full, want, opts, n)
                if "chunk_reading_degree_of_parallelism" not in opts or rng.random() < 0.5:
                    k = rng.choice([1, n - 1, n, rng.randrange(0, n + 1)])
                    part = read(ctx, w, chunk, n_skip=k, limit=n, **opts)
                    ctx.check(part == full[k:], "reading from a position differs from reading everything and dropping the first samples",
                              "skip", position=k, got=part[:4], want=full[k:k + 4])
                    ctx.evaluated()
                    ctx.count("reads_skipped_part")
            ctx.distinct(sorted(want.items()), sorted(opts.items())) if n > 1 else None
            ctx.count("reads_window" if "chunk_reading_mixture_type" in opts else "reads_simple")
            if opts.get("chunk_reading_prefetch_first_sample"):
                ctx.count("reads_prefetch")
            if "chunk_reading_degree_of_parallelism" in opts:
                ctx.count("reads_parallel")
        if cn == 0:
            ctx.sample(dict(mixture=spec.describe(), rows={str(d): len(r) for d, r in t.rows.items()}, options=combos))
    w.close()


def judge(ctx, full, want, opts, n):
    ctx.check([x[0] for x in full] == list(range(len(full))), "samples are not numbered consecutively", "numbering", got=[x[0] for x in full][:20])
    got = Counter((x[1], x[2]) for x in full)
    missing, extra = want - got, got - want
    ctx.check(not missing and not extra, f"a read gives {len(full)} samples, {sum(missing.values())} missing, {sum(extra.values())} too many or under "
              "another domain", "read-content", missing=[(k, v[:80]) for k, v in list(missing)[:4]], extra=[(k, v[:80]) for k, v in list(extra)[:4]])
    ctx.evaluated()
    ctx.count("reads")
    ctx.count("samples_read", len(full))
