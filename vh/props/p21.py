"""P21: property calculation calls the calculation with every sample once and knows whose result is whose."""
import json
import os
from collections import Counter

from vh import gen, proc, srv

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: recording set-up and calculation functions observe every call of the executor; the calls and the returned results are judged against the content of the files, "
             "read independently; faults are injected into calculations and files; refused and failed calculations through a client are followed by a comparison of the collection")
NOTE = "held on the executed calculations"
RULE = "an evaluation is one calculation over a set of files, or one request to a collection; distinct by file sizes, batch size, kind of result and fault; non-trivial: there is a sample"
ASSUMPTIONS = ["files are JSON lines (the local executor supports nothing else) and do not change between loading and running",
               "storing a calculated property is not implemented upstream: add_property is judged by its calls, its refusals and what it leaves behind"]
CASES = {"quick": 60, "thorough": 3000}
BUDGET = {"quick": 40, "thorough": 400}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 60
QUIESCE = 60
MUST_OBSERVE = ["batches_judged", "results_compared", "empty_files", "compressed_files", "partial_batches", "batches_across_files", "wrong_number_refused", "wrong_type_refused", "calculation_faults",
                "unusable_files", "interleaved_executors", "second_runs", "second_loads", "requests_refused", "requests_calculated", "remote_requests"]
MIN_EVALUATIONS = {"quick": 250, "thorough": 8000}


class State:
    child = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


class Fault(Exception):
    pass


# -- recording functions (for a server, they write to a file) ---------------------------------------------------------
class Setup:
    def __init__(self, path=None, record=None):
        self.path, self.record = path, record

    def __call__(self, executor):
        executor.vh_token = ("token", 17)
        executor.vh_seen = 0
        note(self, ("setup", id(executor)))


def note(self, what):
    if self.path is not None:
        with open(self.path, "a", encoding="utf-8") as f:
            f.write(json.dumps(what) + "\n")
    else:
        self.record.append(what)


VALUE = {
    "str": lambda n: f"v{n % 7}",
    "int": lambda n: n % 5,
    "float": lambda n: n / 8.0,
    "bool": lambda n: n % 3 == 0,
    "list": lambda n: [f"a{n}", f"b{n % 3}"],
    "mixed": lambda n: [f"s{n}", n, n / 4, [n, "x"], True][n % 5],
    "np_float": lambda n: n / 16.0,
    "np_str": lambda n: f"p{n % 11}",
}


class Calc:
    """The value of a sample depends on its own text only."""

    def __init__(self, kind, path=None, record=None, fault=None):
        self.kind, self.path, self.record, self.fault = kind, path, record, fault  # fault: (kind, batch)

    def __call__(self, executor, batch):
        import numpy as np

        call = executor.vh_seen
        executor.vh_seen += 1
        note(self, ("batch", id(executor), list(executor.vh_token), {k: [str(x) if k == "data" else int(x) for x in v] for k, v in batch.items()}))
        out = [VALUE[self.kind](number(str(x))) for x in batch["data"]]
        if self.fault and self.fault[1] == call:
            f = self.fault[0]
            if f == "raise":
                raise Fault("calculation")
            if f == "fewer":
                return out[:-1]
            if f == "more":
                return out + out[-1:]
            if f == "none":
                return []
            out[len(out) // 2] = {"null": None, "dict": {"a": 1}, "object": object()}[f]
        if self.kind in ("np_float", "np_str"):
            return np.array(out)
        return tuple(out) if self.kind == "int" else out


def number(line):
    return json.loads(line)["n"]


# -- files ------------------------------------------------------------------------------------------------------------
class Files:
    def __init__(self, ctx, rng):
        from mixtera.core.datacollection.datasets import JSONLDataset

        self.root, self.rng = ctx.dir("files"), rng
        self.files, self.lines = [], {}
        n = rng.randrange(1, 1000)
        keys = set()
        for i in range(rng.choice([0, 1, 1, 2, 3, 6, 12])):
            ext = rng.choice(["jsonl"] * 5 + sorted(gen.COMPRESS))
            path = self.root / f"f{i}.{ext}"
            lines = []
            for _ in range(rng.choice([0, 1, 2, 3, 7, 20, 64])):
                rec = {"n": n, "text": gen.random_text(rng, True)}
                if rng.random() < 0.1:
                    rec["same"] = 1
                else:
                    n += 1
                lines.append(json.dumps(rec, ensure_ascii=rng.random() < 0.5) + rng.choice(["", "", " ", "\t"]))
            text = "\n".join(lines) + ("\n" if lines and rng.random() < 0.7 else "")
            path.write_bytes(gen.COMPRESS[ext](text.encode("utf-8")))
            ctx.count("empty_files", not lines)
            ctx.count("compressed_files", ext != "jsonl" and len(lines) > 0)
            for _ in range(2 if rng.random() < 0.1 else 1):  # the same content may be registered twice
                key = (rng.choice([1, 2, 3, 10, 2**31 + 7]), rng.choice([1, 5, 6, 7, 8, 11, 12, 99, 2**33]))  # dataset, file
                if key in keys:
                    continue
                keys.add(key)
                self.files.append((key[1], key[0], JSONLDataset, str(path)))
                self.lines[key] = [json.loads(x) for x in lines]
        rng.shuffle(self.files)

    def want(self, kind, times=1):
        out = Counter()
        for (d, f), recs in self.lines.items():
            for i, r in enumerate(recs):
                out[(d, f, i, repr(VALUE[kind](r["n"])))] += times
        return out

    def sizes(self):
        return sorted(len(v) for v in self.lines.values())


def executor_of(size, setup_, calc):
    from mixtera.core.processing import ExecutionMode
    from mixtera.core.processing.property_calculation import PropertyCalculationExecutor

    return PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, size, setup_, calc)


def plain(v):
    return v.item() if hasattr(v, "item") else [plain(x) for x in v] if isinstance(v, list) else v


def judge_calls(ctx, record, lines, size, times=1):
    """Every call of the calculation: what it got, when, on which object."""
    ctx.check(record and record[0][0] == "setup", "the calculation ran before the set-up", "setup")
    ctx.check(sum(x[0] == "setup" for x in record) == 1, "the set-up ran more than once for one executor", "setup")
    seen = Counter()
    for what in record[1:]:
        _, oid, token, batch = what
        ctx.check(oid == record[0][1] and list(token) == ["token", 17], "the calculation does not get the object that was set up", "setup")
        lens = {k: len(v) for k, v in batch.items()}
        ctx.check({"data", "file_id", "dataset_id", "line_id"} <= set(lens) and len(set(lens.values())) == 1, f"the columns of a batch differ in length: {lens}", "batch")
        n = lens["data"]
        ctx.check(0 < n <= size, f"a batch of {n} samples, the batch size is {size}", "batch")
        ctx.count("partial_batches", n < size)
        ctx.count("batches_across_files", len(set(zip(batch["dataset_id"], batch["file_id"]))) > 1)
        for text, f, d, i in zip(batch["data"], batch["file_id"], batch["dataset_id"], batch["line_id"]):
            recs = lines.get((d, f))
            ctx.check(recs is not None and 0 <= i < len(recs), "the calculation was called for a sample that does not exist", "sample", dataset=d, file=f, line=i)
            ctx.check(json.loads(text) == recs[i], "the calculation got the content of another sample", "content", dataset=d, file=f, line=i, got=text[:300], want=str(recs[i])[:300])
            seen[(d, f, i)] += 1
        ctx.count("batches_judged")
    want = Counter({(d, f, i): times for (d, f), recs in lines.items() for i in range(len(recs))})
    ctx.check(seen == want, "the calculation was not called once with every sample", "calls", missing=str(list((want - seen).items())[:5]), extra=str(list((seen - want).items())[:5]))


def judge_results(ctx, result, want):
    got = Counter()
    for r in result:
        got[(int(r["dataset_id"]), int(r["file_id"]), int(r["sample_id"]), repr(plain(r["property_value"])))] += 1
    ctx.check(got == want, "a result does not belong to the sample it was computed from, or results are missing or repeated", "results",
              missing=str(list((want - got).items())[:5]), extra=str(list((got - want).items())[:5]))
    ctx.count("results_compared", sum(want.values()))


def fails(ctx, fn, what, mech, exc=Exception):
    try:
        got = fn()
    except exc as e:
        return e
    ctx.fail(f"{what} went unnoticed", mech, got=str(got)[:300])


def run_direct(ctx, st, rng, k):
    fs = Files(ctx, rng)
    kind = rng.choice(sorted(VALUE))
    total = sum(fs.sizes())
    size = rng.choice([1, 2, 3, 7, 8, max(1, total), max(1, total - 1), total + 1, 1000])
    record = []
    ctx.note(kind=kind, batch_size=size, files=str([(f[1], f[0], os.path.basename(f[3]), len(fs.lines[(f[1], f[0])])) for f in fs.files]))
    fault = None
    if total and rng.random() < 0.4:
        fault = (rng.choice(["raise", "fewer", "more", "none", "null", "dict", "object"]), rng.randrange((total + size - 1) // size))
        if kind.startswith("np") and fault[0] in ("null", "dict", "object"):
            kind = "str"
    ctx.note(fault=fault)
    ex = executor_of(size, Setup(record=record), Calc(kind, record=record, fault=fault))
    other = None
    if rng.random() < 0.3:
        ofs, orec, okind = Files(ctx, rng), [], rng.choice(sorted(VALUE))
        other = executor_of(5, Setup(record=orec), Calc(okind, record=orec))
    only = rng.random() < 0.7
    if total and rng.random() < 0.2:  # in two portions
        cut = rng.randrange(len(fs.files) + 1)
        ex.load_data(fs.files[:cut], only)
        if other:
            other.load_data(ofs.files, only)
        ex.load_data(fs.files[cut:], only)
        ctx.count("second_loads")
    else:
        ex.load_data(fs.files, only)
        if other:
            other.load_data(ofs.files, only)
    if other:
        judge_results(ctx, other.run(), ofs.want(okind))
        judge_calls(ctx, orec, ofs.lines, 5)
        ctx.count("interleaved_executors")
    if fault:
        e = fails(ctx, ex.run, {"raise": "a failing calculation", "fewer": "a missing result", "more": "a result too many", "none": "missing results"}.get(fault[0], "a result of an unsupported type"), "unnoticed")
        ctx.check(fault[0] != "raise" or isinstance(e, Fault) or isinstance(e.__cause__, Fault), f"a failing calculation surfaced as {type(e).__name__}", "unnoticed")
        ctx.count({"raise": "calculation_faults", "fewer": "wrong_number_refused", "more": "wrong_number_refused", "none": "wrong_number_refused"}.get(fault[0], "wrong_type_refused"))
    else:
        result = ex.run()
        judge_calls(ctx, record, fs.lines, size)
        judge_results(ctx, result, fs.want(kind))
        if rng.random() < 0.2:
            judge_results(ctx, ex.run(), fs.want(kind))
            judge_calls(ctx, record, fs.lines, size, times=2)
            ctx.count("second_runs")
    ctx.evaluated()
    if total:
        ctx.distinct(fs.sizes(), size, kind, fault)
    ctx.sample(dict(files=fs.sizes(), batch_size=size, kind=kind, fault=fault))


def run_unusable(ctx, rng):
    """What cannot be read must not be skipped."""
    from mixtera.core.datacollection.datasets import ParquetDataset, WebDataset

    fs = Files(ctx, rng)
    record = []
    ex = executor_of(rng.choice([1, 4, 100]), Setup(record=record), Calc("str", record=record))
    bad = rng.choice(["missing", "type", "type", "encoding", "truncated"])
    path = fs.root / ("bad.jsonl.gz" if bad == "truncated" else "bad.jsonl")
    dtype = fs.files[0][2] if fs.files else None
    if bad == "type":
        path.write_text('{"n": 1}\n', "utf-8")
        dtype = rng.choice([ParquetDataset, WebDataset])
    elif bad == "encoding":
        path.write_bytes(b'{"n": 1, "t": "\xff\xfe"}\n')
    elif bad == "truncated":
        path.write_bytes(gen.COMPRESS["jsonl.gz"](os.urandom(4000).hex().encode())[:-900])
    if dtype is None:
        return
    files = list(fs.files)
    files.insert(rng.randrange(len(files) + 1), (4711, 4711, dtype, str(path)))
    ctx.note(bad=bad)

    def go():
        ex.load_data(files, True)
        return ex.run()

    fails(ctx, go, f"an unusable file ({bad})", "unnoticed")
    ctx.count("unusable_files")
    ctx.evaluated()


# -- collections --------------------------------------------------------------------------------------------------------
def snapshot(client, n, remote):
    """The collection as its users see it."""
    from vh import acc
    from mixtera.core.query.mixture import ArbitraryMixture

    job = f"look{n}"
    client.execute_query(gen.build_query(job, []), acc.exec_args(ArbitraryMixture(chunk_size=5)))
    client.wait_for_execution(job)
    chunks = [sorted((str(k), v) for k, v in acc.chunk_rows(c).items()) for c in acc.chunks_of(client, job)]
    out = [sorted(client.list_datasets()), chunks]
    if not remote:
        con = client._mdc._connection
        out += [client._mdc.get_db_version(), sorted(con.cursor().execute("SELECT column_name, data_type FROM information_schema.columns WHERE table_name = 'samples'").fetchall()),
                con.cursor().execute("SELECT COUNT(*) FROM samples").fetchone()]
    return out


def run_collection(ctx, st, rng, remote):
    from mixtera.core.datacollection import PropertyType
    from mixtera.core.processing import ExecutionMode

    w = gen.World(ctx.dir("w"), rng)
    server = client = None
    props = [gen.PropSpec("language", "STRING", False, True, ("en", "de", "fr"))]
    if remote:
        server = srv.Server(st.child, w.home)
        w.client = client = server.client()
        pid, cls = "P", srv.parser_class(w.root, props)
        client.register_metadata_parser(pid, cls)
        w.parsers[pid] = cls
    else:
        client = w.connect()
    for i in range(rng.choice([1, 2, 3])):
        sizes = [rng.choice([1, 3, 9]) for _ in range(rng.choice([1, 2, 4]))]
        ds = w.make_dataset(f"d{i}", props, sizes, "jsonl", ext=rng.choice(["jsonl", "jsonl"] + sorted(gen.COMPRESS)), hostile=True)
        ds.parser_id = "P" if remote else ""
        ctx.check(w.register(ds), "registration fails", "register")
    before = snapshot(client, 0, remote)
    for k in range(1, 4):
        log = w.root / f"calls{k}"
        log.touch()
        bad = rng.choice([None, None, "name", "buckets", "batch", "range", "numerical", "parallel", "raise"])
        size = 0 if bad == "batch" else rng.choice([1, 2, 5, 100])
        total = len(w.samples())
        calc = CollectionCalc("str", str(log), fault=("raise", rng.randrange((total + size - 1) // size)) if bad == "raise" else None)
        kw = dict(batch_size=size, degree_of_parallelism=2 if bad == "parallel" else 1, num_buckets=1 if bad == "buckets" else 10, min_val=0.0, max_val=-1.0 if bad == "range" else 1.0)
        ctx.note(bad=bad, batch_size=size, remote=remote)
        try:
            got = client.add_property("" if bad == "name" else f"prop{k}", CollectionSetup(str(log)), calc, ExecutionMode.LOCAL,
                                      PropertyType.NUMERICAL if bad in ("range", "numerical") else PropertyType.CATEGORICAL, **kw)
        except Exception as e:  # pylint: disable=broad-except
            got = e
        record = [json.loads(x) for x in log.read_text("utf-8").splitlines()]
        if bad:
            ctx.check(not got or isinstance(got, Exception), f"add_property accepts what it cannot do ({bad})", "accepted", got=str(got))
            ctx.check(bad == "raise" or not any(x[0] == "batch" for x in record), f"the calculation ran although the request was refused ({bad})", "accepted")
            ctx.count("requests_refused")
        else:
            judge_collection_calls(ctx, w, record, size)
            ctx.count("requests_calculated")
        if got is not True:
            after = snapshot(client, k, remote)
            ctx.check(after == before, "a property that was not added changed the collection", "changed", before=str(before)[:1200], after=str(after)[:1200], outcome=str(got)[:300])
        else:
            before = snapshot(client, k, remote)
        ctx.count("remote_requests", remote)
        ctx.evaluated()
        ctx.distinct("collection", remote, bad, size, total)
    if server:
        ctx.check(server.alive(), "the server died", "server", log=server.log()[-2000:])
        server.stop()
    else:
        w.close()


class CollectionSetup(Setup):
    pass


class CollectionCalc(Calc):
    def __call__(self, executor, batch):
        call = executor.vh_seen
        executor.vh_seen += 1
        note(self, ("batch", id(executor), list(executor.vh_token), {k: [str(x) if k == "data" else int(x) for x in v] for k, v in batch.items()}))
        if self.fault and self.fault[1] == call:
            raise Fault("calculation")
        return ["x"] * len(batch["data"])


def judge_collection_calls(ctx, w, record, size):
    """Ids are the collection's own: they must be consistent, and one pair per file."""
    files = {}
    by_content = {}
    for d in w.datasets:
        for s in d.samples:
            files.setdefault((d.name, s.file), []).append({"text": s.text, "meta": s.meta})
    for name, recs in files.items():
        by_content[recs[0]["text"]] = name
    ids = {}
    for what in record:
        if what[0] == "batch":
            b = what[3]
            for t, f, d, i in zip(b["data"], b["file_id"], b["dataset_id"], b["line_id"]):
                if i == 0:
                    name = by_content.get(json.loads(t)["text"])
                    ctx.check(name is not None and ids.setdefault((d, f), name) == name, "the calculation got the content of another sample", "content", text=t[:200])
    ctx.check(len(set(ids.values())) == len(ids) == len(files), "the calculation does not see every file once", "calls", files=str(ids))
    names = {}
    for (d, _), (ds, _) in ids.items():
        ctx.check(names.setdefault(d, ds) == ds, "the files of two datasets have the same dataset id", "content")
    ctx.check(len(set(names.values())) == len(names), "the files of a dataset have different dataset ids", "content")
    judge_calls(ctx, record, {k: files[v] for k, v in ids.items()}, size)


def run_case(ctx, st, i):
    rng = ctx.rng
    for k in range(rng.choice([3, 5])):
        run_direct(ctx, st, rng, k)
        ctx.case_log.clear()
    if rng.random() < 0.5:
        run_unusable(ctx, rng)
        ctx.case_log.clear()
    if i % 3 == 0:
        run_collection(ctx, st, rng, remote=i % 6 == 0)


def finish(ctx, st):
    st.child.close()
