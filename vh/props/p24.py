"""P24: failures while reading or tokenising surface instead of truncating data."""
import os
import subprocess
import threading
from collections import Counter

from vh import acc, gen, jobs, tok

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with fault injection: damaged files, failing parsers, killed readers and failing tokenizers under every reading mode"
NOTE = ("held for the injected faults: every read that meets one must end with an exception, after delivering only correct samples; a "
        "quiescent process tree counts as a hang")
RULE = ("an evaluation is one read of a chunk with one injected fault; distinct by fault, format, reading mode and position of the fault; "
        "a control read of the same chunk without fault must succeed")
ASSUMPTIONS = ["a fault that no delivered or skipped sample depends on need not be noticed",
               "a parquet file without any row reads as empty (the repository's tests demand it)", "damage that leaves the decoded content unchanged is not a fault"]
CASES = {"quick": 120, "thorough": 2500}
BUDGET = {"quick": 80, "thorough": 650}
SHARDS = {"quick": 8, "thorough": 8}
CASE_CPU = 120
QUIESCE = 70
MUST_OBSERVE = ["faults_surfaced", "fault_delete", "fault_truncate", "fault_parse", "fault_kill", "fault_tokenizer", "fault_first_item", "staggered_readers"]
MIN_EVALUATIONS = {"quick": 60, "thorough": 600}


class Boom(Exception):
    pass


def setup(ctx):
    from vh.boot import boot

    boot()
    from mixtera.core.query import result_chunk

    if hasattr(result_chunk, "MULTIPROCESSING_TIMEOUT"):
        result_chunk.MULTIPROCESSING_TIMEOUT = 5  # how long a dead reader may go unnoticed
    d = ctx.scratch_root / "tokenizer"
    tok.save(d)
    return str(d)


FAULT_FILE = "fault"


def make_parser(fmt, control):
    """Parses like the others, but does what the control file says when it meets the marked sample."""
    import json

    def act(text):
        try:
            with open(control, encoding="utf-8") as f:
                mark, what = f.read().split("\x00")
        except OSError:
            return text
        if text != mark:
            return text
        if what == "exit":
            os._exit(7)
        if what == "kill":
            os.kill(os.getpid(), 9)
        raise {"boom": Boom, "stop": StopIteration, "key": KeyError, "unicode": UnicodeError, "os": OSError, "value": ValueError,
               "generator-exit": GeneratorExit, "eof": EOFError}[what](f"injected at {mark[:30]}")

    if fmt == "jsonl":
        return lambda line: act(json.loads(line)["text"])
    if fmt == "parquet":
        return lambda record: act(record["text"])
    return lambda sample: act(sample[".txt"])


def run_case(ctx, tokdir, i):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    control = str(w.root / "control")
    fmt = rng.choice(["jsonl", "jsonl", "parquet", "web"])
    ext = rng.choice(["jsonl", "jsonl", "jsonl.gz", "jsonl.xz", "jsonl.bz2", "jsonl.zst"]) if fmt == "jsonl" else None
    if ext == "jsonl.zst" and ext not in gen.COMPRESS:
        ext = "jsonl.gz"
    prop = gen.PropSpec("language", "STRING", False, False, ("a", "b"))
    staggered = i % 6 == 5  # readers that end just before another one fails
    k = rng.choice([1, 2, 5, 9])
    metas = [[{"language": "a"}] * n for n in rng.sample([k, k + 1, k + 1, k], rng.choice([2, 3]))] if staggered else None
    ds = w.make_dataset("d", [prop], [len(m) for m in metas], fmt=fmt, ext=ext, row_group=rng.choice([2, 7, 50]), metas=metas) if staggered else w.make_dataset("d", [prop], [rng.choice([1, 3, 12, 40]) for _ in range(rng.choice([1, 2, 3]))], fmt=fmt, ext=ext,
                        row_group=rng.choice([2, 7, 50]))
    ctx.check(w.register(ds, make_parser(fmt, control)), "registration failed")
    where = {jobs.location(w, s): s for s in ds.samples}
    doms = [gen.domain_of(s.meta) for s in ds.samples]
    spec = jobs.MixSpec("arbitrary", 1000, False) if staggered else jobs.random_mixture(rng, doms, kinds=("arbitrary", "static", "inferring"), strict=False, chunk_sizes=(1, 4, 20, 100))
    ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(jobs.make_mixture(spec))), "execute_query reported failure")
    chunks = []
    for c in acc.chunks_of(w.client, "j"):
        chunks.append(c)
        if len(chunks) >= 4:
            break
    if not chunks:
        w.close()
        return
    chunk = rng.choice(chunks)
    t = jobs.trace_chunk(chunk)
    rows = sorted(r for rs in t.rows.values() for r in rs)
    texts = Counter(where[r].text for r in rows)
    mode = rng.choice(["simple", "simple", "window", "parallel", "parallel", "token", "token"])
    mode = "parallel" if staggered else mode
    prefetch = rng.random() < 0.5
    opts = dict(chunk_reading_prefetch_first_sample=prefetch)
    if mode == "window":
        opts.update(chunk_reading_mixture_type="window", chunk_reading_window_size=rng.choice([1, 3, 10]))
    if mode == "parallel":
        opts.update(chunk_reading_degree_of_parallelism=rng.choice([2, 3]))
    if mode == "token":
        opts.update(chunk_reading_mixture_type="token", chunk_reading_tokenizer=tokdir, chunk_reading_sequence_len=rng.choice([3, 10]),
                    chunk_reading_tokenization_bs=rng.choice([1, 4, 1000]), chunk_reading_token_separate_thread=rng.random() < 0.6)
    faults = ["delete", "truncate", "truncate", "parse", "parse", "parse"]
    if mode == "parallel":
        faults += ["kill", "kill"]
    if mode == "token":
        faults += ["tokenizer", "tokenizer"]
    fault = "parse" if staggered and rng.random() < 0.8 else rng.choice(faults)
    ctx.note(fault=fault, mode=mode, options=opts, format=ext or fmt, mixture=spec.describe(), rows={str(d): len(r) for d, r in t.rows.items()})

    chunk.configure_result_streaming(client=w.client, args=ResultStreamingArgs(job_id="j", **opts))
    good = collect(ctx, chunk, None)
    ctx.check(good[1] is None, f"the control read without fault fails: {good[1]!r}", "control")

    victim = rng.choice([rows[0], rows[-1], rng.choice(rows)])
    if staggered:
        victim = rng.choice([r for r in rows if r[1] == k] or rows)
        ctx.count("staggered_readers", victim[1] == k)
    path, idx = victim
    # In token mode a domain may end the stream before another one is read to its end, so the fault is only sure to be met
    # if the chunk has one domain.
    must = not (mode == "token" and len(t.rows) > 1)
    undo = None
    if fault == "delete":
        undo = open(path, "rb").read()
        os.unlink(path)
    elif fault == "truncate":
        undo = open(path, "rb").read()
        how = shorten(ctx, rng, ds, path, idx, fmt, ext, undo)
        ctx.note(how=how, victim=victim)
        if how == "bytes" and ext is not None and ext != "jsonl" or how == "bytes" and fmt == "web":
            must = must and not decodes(path, ext, fmt, idx)
    elif fault in ("parse", "kill"):
        what = rng.choice(["boom", "stop", "key", "unicode", "os", "value", "eof"]) if fault == "parse" else rng.choice(["exit", "kill"])
        ctx.note(how=what, victim=victim)
        with open(control, "w", encoding="utf-8") as f:
            f.write(where[victim].text + "\x00" + what)
    elif fault == "tokenizer":
        hurt(chunk, where[victim].text)
    got, error, hung = (*collect(ctx, chunk, 60), False)[:3]
    if isinstance(error, TimeoutError) and str(error) == "hang":
        ctx.fail("the consumer of the stream hangs after the fault", "hang")
    ctx.evaluated()
    ctx.count("fault_" + fault)
    if prefetch and len(t.rows) == 1 and victim == rows[0]:
        ctx.count("fault_first_item")
    if error is None:
        ctx.check(not must, f"the stream ended as if complete although {fault} hit one of its samples ({len(got)} of {len(good[0])} delivered)",
                  "silent-truncation", delivered=len(got), of=len(good[0]), victim=victim)
        ctx.count("faults_not_met")
    else:
        ctx.count("faults_surfaced")
        ctx.count("error_" + type(error).__name__)
    if mode != "token":
        extra = Counter(x[2] for x in got) - texts
        ctx.check(not extra, "samples that are not in the chunk were delivered", "invented", extra=list(extra)[:3])
    ctx.distinct(fault, fmt, ext, mode, prefetch, spec.kind, idx)
    ctx.sample(dict(fault=fault, mode=mode, format=ext or fmt, error=repr(error)[:120], delivered=len(got), of=len(good[0])))
    if undo is not None:
        with open(path, "wb") as f:
            f.write(undo)
    w.close()
    del hung


def collect(ctx, chunk, timeout):
    """(samples, exception). The read runs in a thread of its own, so that a hang can be told from slowness."""
    out, err = [], []

    def work():
        try:
            for x in chunk:
                out.append(x)
        except BaseException as e:  # pylint: disable=broad-exception-caught
            err.append(e)

    if timeout is None:
        work()
    else:
        th = threading.Thread(target=work, daemon=True)
        th.start()
        th.join(timeout)
        waited = 0
        while th.is_alive() and waited < 4:  # give a loaded machine time before calling it a hang
            th.join(30)
            waited += 1
        if th.is_alive():
            return out, TimeoutError("hang")
    return out, err[0] if err else None


def hurt(chunk, text):
    """Makes the chunk's tokenizer fail on a text."""
    tokenizer = next(v for v in vars(chunk).values() if hasattr(v, "eos_token_id"))

    class Failing:
        def __getattr__(self, name):
            if name == "batch_encode_plus" and not hasattr(tokenizer, name):
                raise AttributeError(name)
            v = getattr(tokenizer, name)
            return self._wrap(v) if callable(v) else v

        def _wrap(self, f):
            def call(texts, *a, **k):
                if text in (texts if isinstance(texts, list) else [texts]):
                    raise Boom("tokenizer")
                return f(texts, *a, **k)

            return call

        def __call__(self, texts, *a, **k):
            return self._wrap(tokenizer)(texts, *a, **k)

    for n, v in list(vars(chunk).items()):
        if v is tokenizer:
            setattr(chunk, n, Failing())


def shorten(ctx, rng, ds, path, idx, fmt, ext, data):
    """Removes the victim (and what follows) from the file: whole samples or bytes."""
    mine = [s for s in ds.samples if path.endswith("/" + s.file)]
    keep = mine[: rng.randrange(0, idx + 1)]
    if fmt == "parquet" and not keep:
        keep = mine[:1]
    if rng.random() < 0.5 and len(keep) <= idx:
        from pathlib import Path

        p = Path(path)
        if fmt == "jsonl":
            gen.write_jsonl(p, keep, ext or "jsonl", True, rng.random() < 0.5)
        elif fmt == "parquet":
            gen.write_parquet(p, keep, rng.choice([2, 7]))
        else:
            gen.write_web(p, keep)
        return "samples"
    with open(path, "wb") as f:
        f.write(data[: rng.randrange(0, max(1, int(len(data) * (idx + 0.3) / (len(mine) + 1))))])
    return "bytes"


def decodes(path, ext, fmt, idx) -> bool:
    """Whether the sample can still be decoded from the damaged file, by independent means."""
    if fmt == "web":
        import tarfile

        try:
            with tarfile.open(path) as tar:
                return any(m.name == f"{idx:06d}.txt" and len(tar.extractfile(m).read()) == m.size for m in tar)
        except Exception:  # pylint: disable=broad-exception-caught
            return False
    tool = {"jsonl.gz": ["gzip", "-dc"], "jsonl.xz": ["xz", "-dc"], "jsonl.bz2": ["bzip2", "-dc"], "jsonl.zst": ["zstd", "-dc"]}[ext]
    out = subprocess.run(tool + [path], capture_output=True, check=False).stdout
    return out.count(b"\n") > idx
