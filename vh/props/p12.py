"""P12: tokenised reading is the concatenation of the domain's texts cut evenly."""
import time
from collections import Counter

from vh import acc, gen, jobs, tok
from vh.props.p10 import read

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: token-level oracle on tokenised reads of real chunks and on both tokenising iterators with delayed sources"
NOTE = ("held on the executed reads with a character-level tokenizer loaded by name; sequences are compared token by token with the "
        "concatenation computed from the registered texts")
RULE = ("an evaluation is one tokenised read (of a chunk, or of a delayed list of texts through the iterators) compared token by token; "
        "distinct by content and options; non-trivial: at least two sequences")
ASSUMPTIONS = ["a sequence holds the configured length plus one token (input and shifted target), overlapping sequences share that token",
               "special tokens are only those switched on"]
CASES = {"quick": 70, "thorough": 2200}
BUDGET = {"quick": 70, "thorough": 620}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 90
MUST_OBSERVE = ["sequences", "multi_domain_reads", "threaded_reads", "padded_sequences", "iterator_reads", "windows_judged"]
MIN_EVALUATIONS = {"quick": 300, "thorough": 3000}


def setup(ctx):
    from vh.boot import boot

    boot()
    d = ctx.scratch_root / "tokenizer"
    tok.save(d)
    return str(d)


def stream_of(texts, bos, eos):
    out = []
    for t in texts:
        out += ([1] if bos else []) + tok.ids(t) + ([2] if eos else [])
    return out


def available(n, length, overlap):
    if n < length + 1:
        return 0
    return (n - 1) // length if overlap else n // (length + 1)


def judge_domain(ctx, seqs, tokens, length, overlap, one, **detail):
    """The delivered sequences of a domain are the first cuts of its tokens; returns how many there could be."""
    step = length if overlap else length + 1
    avail = available(len(tokens), length, overlap)
    padded = avail == 0 and one and len(tokens) > 0
    for k, s in enumerate(seqs):
        ctx.check(len(s) == length + 1, f"a sequence has {len(s)} tokens instead of {length + 1}", "sequence-length", **detail)
        want = tokens[k * step:k * step + length + 1]
        if padded and k == 0:
            want = (tokens * (length + 2))[:length + 1]
            ctx.count("padded_sequences")
        ctx.check(list(s) == want, f"sequence {k} differs from the domain's tokens", "sequence-content", got=list(s)[:40], want=want[:40], **detail)
    avail = 1 if padded else avail
    ctx.check(len(seqs) <= avail, f"{len(seqs)} sequences delivered, the texts allow {avail}", "too-many-sequences", **detail)
    ctx.count("sequences", len(seqs))
    return avail


def run_case(ctx, tokdir, i):
    if i % 2 == 0:
        return iterators(ctx, tokdir)
    rng = ctx.rng
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    nd = rng.choice([1, 2, 3, 4])
    prop = gen.PropSpec("language", "STRING", False, False, tuple(f"v{k}" for k in range(nd)))
    sizes = [rng.choice([3, 12, 40]) for _ in range(rng.choice([1, 2, 3]))]
    ds = w.make_dataset("d", [prop], sizes, fmt=rng.choice(["jsonl", "jsonl", "parquet", "web"]), hostile=rng.random() < 0.3)
    ctx.check(w.register(ds), "registration failed")
    where = {jobs.location(w, s): s for s in ds.samples}
    doms = [gen.domain_of(s.meta) for s in ds.samples]
    spec = jobs.random_mixture(rng, doms, kinds=("static", "static", "inferring", "arbitrary"), chunk_sizes=(2, 5, 10, 29, 50))
    ctx.note(mixture=spec.describe())
    ctx.check(w.client.execute_query(gen.build_query("j", []), acc.exec_args(jobs.make_mixture(spec))), "execute_query reported failure")
    for cn, chunk in enumerate(acc.chunks_of(w.client, "j")):
        if cn >= 3:
            break
        t = jobs.trace_chunk(chunk)
        rows = {t.ids[d]: len(r) for d, r in t.rows.items() if r}
        n = sum(rows.values())
        plain = read(ctx, w, chunk, limit=n, chunk_reading_prefetch_first_sample=False)
        texts: dict = {}
        for _, kid, text in plain:
            texts.setdefault(kid, []).append(text)
        for _ in range(3):
            length = rng.choice([1, 2, 5, 8, 20, 64, 300])
            overlap, one, bos, eos, thread = (rng.random() < 0.5 for _ in range(5))
            opts = dict(chunk_reading_mixture_type="token", chunk_reading_tokenizer=tokdir, chunk_reading_sequence_len=length,
                        chunk_reading_tokenization_bs=rng.choice([1, 2, 7, 1000]), chunk_reading_token_separate_thread=thread,
                        chunk_reading_token_at_least_one_sample=one, chunk_reading_token_overlapping=overlap, chunk_reading_eos=eos,
                        chunk_reading_bos=bos, chunk_reading_window_size=rng.choice([1, 2, 3, 7, 128]), chunk_reading_prefetch_first_sample=rng.random() < 0.4)
            ctx.note(options=opts, rows=rows)
            with ctx.cpu_limit(30, "tokenised reading", "endless-read"):
                out = read(ctx, w, chunk, **opts)
            k = rng.randrange(0, len(out) + 1)
            if rng.random() < 0.3:
                part = read(ctx, w, chunk, n_skip=k, **opts)
                ctx.check(part == out[k:], "tokenised reading from a position differs from dropping the first sequences", "skip", position=k)
            ctx.check([x[0] for x in out] == list(range(len(out))), "sequences are not numbered consecutively", "numbering")
            ctx.check({x[1] for x in out} <= set(rows), "a sequence is reported under a domain the chunk does not have", "unknown-domain")
            avail = {}
            for kid in rows:
                seqs = [x[2] for x in out if x[1] == kid]
                avail[kid] = judge_domain(ctx, seqs, stream_of(texts[kid], bos, eos), length, overlap, one, domain=kid)
            judge_mixture(ctx, [x[1] for x in out], rows, avail, n)
            ctx.evaluated()
            ctx.count("threaded_reads" if thread else "plain_reads")
            if len(rows) > 1:
                ctx.count("multi_domain_reads")
            if len(out) > 1:
                ctx.distinct(texts, length, overlap, one, bos, eos)
        if cn == 0:
            ctx.sample(dict(rows=rows, length=length, sequences=Counter(x[1] for x in out)))
    w.close()


def judge_mixture(ctx, keys, rows, avail, n):
    """Windows of one chunk size of sequences hold the domains as the chunk does, until one runs out."""
    slack = len(rows)
    first = Counter(keys[:n])
    if all(avail[d] >= rows[d] + slack for d in rows):
        off = {d: first[d] - rows[d] for d in rows}
        ctx.check(all(-1 <= o for o in off.values()) and sum(o >= 1 for o in off.values()) <= 1, "sequences do not follow the chunk's mixture",
                  "token-mixture", first_window=dict(first), rows=rows)
        per = dict(first)
        ctx.count("windows_judged")
    else:
        per = dict(rows)
        if any(int(n * (v / n)) != v for v in rows.values()):
            return  # rounding inside the repository may move a sample between domains
    got = Counter(keys)
    m = min(avail[d] // per[d] for d in rows if per.get(d))
    for d in rows:
        c = per.get(d, 0)
        ctx.check(got[d] >= min(avail[d], m * c) and got[d] <= (m + 1) * c, f"domain {d} has {got[d]} sequences, the mixture asks for {m} to {m + 1} times {c}",
                  "token-mixture", got=dict(got), per_window=per, available=avail)
    if len(rows) == 1:
        d = next(iter(rows))
        ctx.check(got[d] == avail[d], f"{got[d]} of {avail[d]} sequences delivered when all is read", "missing-sequences")


def iterators(ctx, tokdir):
    from mixtera.utils import ThreadedTokenizingIterator, TokenizingIterator

    rng = ctx.rng
    tokenizer = tok.load(tokdir)
    for _ in range(8):
        texts = [gen.random_text(rng, rng.random() < 0.2)[:4000] for _ in range(rng.choice([0, 1, 2, 5, 30]))]
        length = rng.choice([1, 2, 3, 8, 31, 100])
        overlap, one, bos, eos = (rng.random() < 0.5 for _ in range(4))
        want = stream_of(texts, bos, eos)
        results = []
        for cls in (TokenizingIterator, ThreadedTokenizingIterator):
            for bs in (1, rng.choice([2, 3, 10]), 1000):
                delays = ctx.sub_rng(bs, cls.__name__)
                src = iter(texts) if rng.random() < 0.4 else _slow(texts, delays)
                ctx.note(texts=texts[:10], length=length, overlap=overlap, one=one, bos=bos, eos=eos, batch=bs, iterator=cls.__name__)
                with ctx.cpu_limit(15, "tokenising iterator", "endless-read"):
                    seqs = []
                    for s in cls(src, tokenizer, length, bs, one, overlap, eos, bos):
                        seqs.append(list(s))
                        if delays.random() < 0.05:
                            time.sleep(0.001 * delays.random())
                        ctx.check(len(seqs) <= len(want) + 1, "endless sequences", "too-many-sequences")
                avail = judge_domain(ctx, seqs, want, length, overlap, one)
                ctx.check(len(seqs) == avail, f"{len(seqs)} of {avail} sequences delivered when all is read", "missing-sequences")
                results.append(seqs)
                ctx.evaluated()
                ctx.count("iterator_reads")
        if len(results[0]) > 1:
            ctx.distinct(texts, length, overlap, one, bos, eos)


def _slow(texts, rng):
    for t in texts:
        if rng.random() < 0.15:
            time.sleep(0.002 * rng.random())
        yield t
