"""P20: persisted query results and indices reload to the same job."""
import shutil

import numpy as np

from vh import acc, gen, jobs, proc, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: written and reloaded indices are compared interval by interval, and the chunks of reloaded query results (same process, fresh process with another hash "
             "seed, copies of copies, reports before and after) with those of the original and of a twin job that was never written")
NOTE = "held on the generated indices and on the executed histories of jobs"
RULE = ("an evaluation is one reloaded index compared completely, or one comparison of all further chunks of a reloaded job with the original's; distinct by content or history; "
        "non-trivial: the index has an interval, the job still delivers chunks")
ASSUMPTIONS = ["indices have the shape the system itself builds: every domain has a file and every file has intervals", "nobody changes the directory between writing and reading"]
CASES = {"quick": 66, "thorough": 1800}
BUDGET = {"quick": 50, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 120
QUIESCE = 90
MUST_OBSERVE = ["indices_compared", "large_indices", "typed_keys", "results_reloaded", "fresh_process_reloads", "copies_of_copies", "written_mid_job", "written_after_report", "written_at_end",
                "chunks_compared", "dynamic_jobs", "schedule_jobs", "arbitrary_jobs", "written_after_failed_attempt", "written_after_several_changes"]
MIN_EVALUATIONS = {"quick": 250, "thorough": 5000}


class State:
    other = None


def setup(ctx):
    from vh.boot import boot

    boot()
    st = State()
    st.other = proc.Child(ctx.scratch_root, hashseed=4711, cpu=600, fork=True, name="other")
    return st


# -- indices ------------------------------------------------------------------------------------------------------------
def plain(index):
    """Everything an index says, independent of the classes it is made of; with the order of the domains."""
    out = []
    for key, datasets in index.items():
        props = tuple(sorted((k, tuple((type(v).__name__, repr(v)) for v in vs)) for k, vs in key.properties.items()))
        out.append((props, {int(d): {int(f): [(int(a), int(b)) for a, b in r] for f, r in files.items()} for d, files in datasets.items()}))
    return out


WORDS = ["", "a", "A", "en", "x y", "a/b", "../up", "ä ö", "日本", "a\nb", "a:b;c", "'q'", '"', "." * 3, "-1", "None", "w" * 300, "mixture_key_0", "dataset_1", "file_1.npy", "tab\t", "é", "e\u0301"]


def random_value(rng, kind):
    if kind == "str":
        return rng.choice(WORDS)
    if kind == "int":
        return rng.choice([0, 1, -1, 7, 2**31, -(2**40), 2**62])
    if kind == "float":
        return rng.choice([0.0, -0.0, 0.5, 1e-300, 3.14, 1e18, -2.5])
    return rng.choice([True, False])


def random_index(ctx, rng):
    from mixtera.core.query.mixture import MixtureKey

    index, seen = {}, set()
    names = rng.sample(["language", "license", "q", "size", "a b", "ä", "p" * 100], rng.choice([1, 2, 3]))
    kinds = {n: rng.choice(["str", "str", "int", "float", "bool"]) for n in names}
    ctx.count("typed_keys", any(k != "str" for k in kinds.values()))
    large = rng.random() < 0.1
    for _ in range(rng.choice([1, 2, 5, 12, 40])):
        props = {n: [random_value(rng, kinds[n]) for _ in range(rng.choice([1, 1, 2]))] for n in names if rng.random() < 0.8}
        for vs in props.values():
            vs[:] = list(dict.fromkeys(vs))
        if not props and rng.random() < 0.7:
            continue
        key = MixtureKey(props)
        mark = repr(sorted((k, sorted(map(repr, v))) for k, v in props.items()))
        if mark in seen or any(k == key and hash(k) == hash(key) for k in index):
            continue
        seen.add(mark)
        datasets = {}
        for d in rng.sample([1, 2, 3, 10, 11, 2**31], rng.choice([1, 1, 2, 3])):
            files = {}
            for f in rng.sample([1, 2, 3, 10, 100, 2**31 + 5, 7], rng.choice([1, 1, 3])):
                at, r = rng.choice([0, 0, 5, 2**33]), []
                for _ in range(3000 if large and not index else rng.choice([1, 1, 2, 7])):
                    at += rng.choice([0, 1, 3])
                    n = rng.choice([1, 1, 2, 50])
                    r.append((at, at + n) if rng.random() < 0.7 else [at, at + n])
                    at += n
                files[f] = r
            datasets[d] = files
        index[key] = datasets
    ctx.count("large_indices", large and bool(index))
    return index


def read_index(path):
    from mixtera.utils.utils import deserialize_chunker_index

    return plain(deserialize_chunker_index(path))


def indices(ctx, st, rng, i):
    from mixtera.utils.utils import deserialize_chunker_index, serialize_chunker_index

    for k in range(2):
        index = random_index(ctx, rng)
        want = plain(index)
        ctx.note(index=str(want)[:1500])
        path = ctx.dir("ix") / rng.choice(["index", "a b", "deep/er"])
        path.parent.mkdir(exist_ok=True)
        serialize_chunker_index(index, rng.choice([str, lambda x: x])(path))
        ctx.check(plain(index) == want, "writing an index changed it", "changed")
        if k and i % 3 == 0:
            got = st.other.call("vh.props.p20:read_index", path)
            ctx.count("fresh_process_reloads")
        else:
            got = plain(deserialize_chunker_index(path))
        ctx.check(got == want, "the reloaded index differs from the one that was written", "index", reloaded=str(got)[:1500])
        again = deserialize_chunker_index(path)
        for key, datasets in index.items():
            ctx.check(key in again and plain({key: again[key]}) == plain({key: datasets}), "a domain of the index is not found in the reloaded one", "index", key=str(key))
        ctx.count("indices_compared")
        ctx.evaluated()
        if index:
            ctx.distinct("index", want)
        shutil.rmtree(path)


# -- jobs -----------------------------------------------------------------------------------------------------------------
def report(qr, fb):
    from mixtera.network.client.client_feedback import ClientFeedback

    step, losses, counts, mid = fb
    qr._mixture.process_client_feedback(ClientFeedback(training_steps=step, mixture_id=mid, losses=None if losses is None else np.array(losses, dtype=np.float32),
                                                       counts=None if counts is None else np.array(counts, dtype=np.int64)))


def rest(qr, acts, limit=60):
    """Plays chunk requests and reports, then takes what is left."""
    out = []

    def chunk():
        try:
            c = next(qr)
        except StopIteration:
            c = None
        if c is None:
            out.append(None)
            return False
        t = jobs.trace_chunk(c)
        out.append((t.mixture_id, sorted(t.rows.items()), sorted(t.ids.items()), t.reported and sorted(t.reported.items()), c._chunk_size if hasattr(c, "_chunk_size") else None))
        return True

    for a in acts:
        if a == "chunk":
            if out[-4:] != [None] * 4:  # a job gives up after some attempts without success, which a reloaded one does not know of
                chunk()
        elif a == "drain":
            while chunk() and len(out) < 80:
                pass
        else:
            report(qr, a)
    while len(out) < limit and chunk():
        pass
    return out


def reload(path, acts, first=()):
    from mixtera.core.query.query_result import QueryResult

    qr = QueryResult.from_cache(path)
    return plain(qr._chunker_index), rest(qr, acts)


def make_mixture(ctx, rng, langs, size, changing=False):
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry
    from vh import algs

    strict = rng.random() < 0.5
    parts = train.random_parts(rng, langs)
    kind = rng.choice(["schedule", "dynamic"] if changing else ["arbitrary", "static", "static", "inferring", "schedule", "schedule", "schedule", "dynamic", "dynamic", "dynamic"])
    if kind == "arbitrary":
        make = lambda: ArbitraryMixture(chunk_size=size)  # noqa: E731
    elif kind == "static":
        make = lambda: train.static(parts, size, strict)  # noqa: E731
    elif kind == "inferring":
        make = lambda: InferringMixture(chunk_size=size, strict=strict)  # noqa: E731
    elif kind == "schedule":
        spec = [(s, rng.random() < 0.2, train.random_parts(rng, langs), rng.random() < 0.5) for s in rng.sample(range(12), rng.choice([4, 6] if changing else [2, 3, 5]))]
        make = lambda: MixtureSchedule(size, [ScheduleEntry(s, ArbitraryMixture(chunk_size=size) if a else train.static(p, size, st)) for s, a, p, st in spec])  # noqa: E731
    else:
        seed = rng.randrange(1000)
        make = lambda: DynamicMixture(size, train.static(parts, size, strict), algs.Echo2(seed), strict=strict)  # noqa: E731
    if kind in ("arbitrary", "schedule", "dynamic"):
        ctx.count(kind + "_jobs")
    return kind, make


def random_acts(rng, kind, n, step, domains, phases=False):
    acts = []
    for k in range(n):
        if (k % 3 == 2) if phases else (rng.random() < 0.4):
            step[0] += rng.choice([1, 2, 3] if phases else [0, 1, 1, 2])
            counts = [rng.choice([0, 64, 500]) for _ in range(domains)]
            losses = [c * rng.choice([1.0, 2.5]) for c in counts]
            acts.append((step[0], losses, counts, step[0] if phases else rng.choice([0, step[0] // 3])) if kind == "dynamic" else (step[0], None, None, 0))
        else:
            acts.append("chunk")
    return acts


def job(ctx, st, rng, i):
    from mixtera.core.query.query_result import QueryResult

    phases = rng.random() < 0.5  # every mixture gives some chunks before it is replaced
    w, langs = train.build_data(ctx, rng, per_domain=100 if phases else rng.choice([8, 20, 60]))
    client = w.client
    size = rng.choice([2, 5, 8] if phases else [2, 5, 8, 13])
    kind, make = make_mixture(ctx, rng, langs, size, phases)
    step, domains = [0], len(langs)
    before = random_acts(rng, kind, rng.choice([12, 18, 24]) if phases else rng.choice([0, 0, 1, 3, 8, 20]), step, domains, phases)
    after = random_acts(rng, kind, rng.choice([0, 2, 6]), step, domains)
    if kind in ("schedule", "dynamic") and rng.random() < (0.25 if phases else 0.55):  # until nothing more comes, then a report that brings another mixture
        before.append("drain")
        step[0] += rng.choice([3, 20])
        after.insert(0, (step[0], None, None, 0) if kind == "schedule" else (step[0], [float(rng.choice([0, 640])) for _ in langs], [64 for _ in langs], 0))
    ctx.note(kind=kind, mixture=str(make()), chunk_size=size, before=before, after=after)

    def start(name):
        ok = client.execute_query(gen.build_query(name, []), acc.exec_args(make()))
        ctx.check(ok is True, "execute_query fails", "execute")
        qr = client._get_query_result(name)
        out = rest(qr, before, limit=0)
        return qr, out

    # A job that is never written tells what has to come
    twin, out1 = start("twin")
    index_before = plain(twin._chunker_index)
    want = rest(twin, after)
    qr, out2 = start("written")
    ctx.check(out1 == out2, "two executions of the same job differ", "nondeterministic")
    writes, stages = rng.choice([1, 1, 2]), []
    root = ctx.dir("saved")
    for k in range(writes):
        path = root / f"copy{k}"
        path.mkdir()
        qr.to_cache(path)
        stages.append(path)
        ctx.check(plain(qr._chunker_index) == index_before, "writing a query result changed its index", "changed")
    ctx.count("written_mid_job", "chunk" in before)
    ctx.count("written_after_report", bool(before) and before[-1] != "chunk")
    ctx.count("written_after_several_changes", len({x[0] for x in out1 if x is not None}) > 2 and any(x is not None for x in want))
    ctx.count("written_at_end", bool(out1) and out1[-1] is None)
    ctx.count("written_after_failed_attempt", None in out1 and any(x is not None for x in want))
    if rng.random() < 0.5:  # a copy of a copy
        path = root / "second"
        path.mkdir()
        QueryResult.from_cache(stages[-1]).to_cache(path)
        stages.append(path)
        ctx.count("copies_of_copies")
    use_original_first = rng.random() < 0.5
    if use_original_first:
        compare(ctx, want, rest(qr, after), "the original, after it was written,")
    for n, path in enumerate(stages):
        if (i + n) % 2:
            try:
                index, got = st.other.call("vh.props.p20:reload", path, after)
            except proc.ChildError as e:
                proc.judge(ctx, e)
            what = "the result reloaded in another process"
            ctx.count("fresh_process_reloads")
        else:
            index, got = reload(path, after)
            what = "the reloaded result"
        ctx.check(index == index_before, "the reloaded query result has another index", "index")
        compare(ctx, want, got, what)
        ctx.count("results_reloaded")
        if rng.random() < 0.3:  # reading leaves it as it was
            compare(ctx, want, reload(path, after)[1], "the result reloaded a second time")
    if not use_original_first:
        compare(ctx, want, rest(qr, after), "the original, after it was written and copies were used,")
    if any(x is not None for x in want):
        ctx.distinct("job", kind, want, before)
    ctx.sample(dict(kind=kind, before=len(before), chunks_after=sum(x is not None for x in want), copies=len(stages)))
    w.close()


def compare(ctx, want, got, what):
    for n, (a, b) in enumerate(zip(want, got)):
        ctx.check(a == b, f"{what} delivers another chunk {n} than the job that was not written", "differs", original=str(a)[:900], reloaded=str(b)[:900])
    ctx.check(len(want) == len(got), f"{what} delivers {len(got)} chunks instead of {len(want)}", "differs")
    ctx.count("chunks_compared", len(want))
    ctx.evaluated()


def run_case(ctx, st, i):
    indices(ctx, st, ctx.rng, i)
    ctx.case_log.clear()
    job(ctx, st, ctx.rng, i)


def finish(ctx, st):
    st.other.close()
