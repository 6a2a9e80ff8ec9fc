"""P15: registering a dataset is complete and failure leaves nothing behind."""
import copy
import json
import os
import shutil
import tarfile
import threading
from collections import Counter

from vh import acc, gen, jobs, proc, srv

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: a ledger of the registrations that succeeded is compared after every operation with everything the collection shows; "
             "faults are injected into files, parsers and schemas at random records and files")
NOTE = "held on the executed histories of registrations, faults, retries, removals and re-opened collections, local and through a server"
RULE = ("an evaluation is one operation and the comparison of the whole collection with the ledger afterwards; distinct by kind of operation, fault, "
        "format, position of the fault and what else is registered")
ASSUMPTIONS = ["files do not change while or after they are registered", "the process is not killed in the middle of a registration",
               "the schema of a property that is in use stays the same (other options or a list instead of a value are refused)"]
CASES = {"quick": 40, "thorough": 900}
BUDGET = {"quick": 60, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 120
QUIESCE = 60
MUST_OBSERVE = ["added", "refused", "retried", "removed", "reopened", "samples_compared", "queries", "list_conflicts", "parser_corrected", "remote_operations",
                "removed_meanwhile", "queried_meanwhile", "similar_names", "many_files", "odd_names_refused", "odd_names_accepted"]
MIN_EVALUATIONS = {"quick": 120, "thorough": 1500}


class State:
    child = None


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


def attempt(fn, *args):
    try:
        return fn(*args), None
    except Exception as e:  # pylint: disable=broad-except
        return False, e


SCHEMA = {  # what every parser of a case that declares the property agrees upon
    "language": ("en", "de", "fr", "Go", "it's", 'a "b"', "x, y", "[en]", "None"),
    "topic": ("law", "med", "sci"),
    "license": ("MIT", "CC", "Apache 2", ""),
    "year": ("1999", "2005", "2024-01-01T00:00:00"),
}


class Case:
    def __init__(self, ctx, st, remote):
        self.ctx, self.rng, self.remote = ctx, ctx.rng, remote
        self.w = gen.World(ctx.dir("w"), self.rng)
        self.server = srv.Server(st.child, self.w.home) if remote else None
        self.st = st
        self.schema = {}
        for name, values in SCHEMA.items():
            dtype = self.rng.choice(["STRING", "ENUM"])
            values = tuple(v for v in values if v) if dtype == "ENUM" else values
            self.schema[name] = gen.PropSpec(name, dtype, self.rng.random() < 0.4, self.rng.random() < 0.5, values)
        self.used = set()  # properties whose columns exist
        self.parsers = {}
        self.n = 0
        self.ever = []
        self.open()
        self.version = self.db_version()

    # -- the collection ---------------------------------------------------------------------------------------
    def open(self):
        if self.remote:
            self.client = self.server.client()
        else:
            self.client = self.w.connect()
            for pid, cls in self.parsers.items():
                self.client.register_metadata_parser(pid, cls)

    def reopen(self):
        if self.remote:
            self.server.stop()
            self.server.start()
            self.client = self.server.client()
            for pid, cls in self.parsers.items():
                self.client.register_metadata_parser(pid, cls)
        else:
            self.w.close()
            self.open()

    def close(self):
        if self.remote:
            self.server.stop()
        else:
            self.w.close()

    def db_version(self):
        return None if self.remote else self.client._mdc.get_db_version()

    def parser(self, props):
        pid = f"P{self.n}-{len(self.parsers)}"
        cls = srv.parser_class(self.w.root, props) if self.remote else gen.make_parser(props)
        self.parsers[pid] = cls
        self.client.register_metadata_parser(pid, cls)
        return pid

    def props(self, k=None):
        names = self.rng.sample(sorted(self.schema), k or self.rng.choice([1, 2, 2, 3]))
        return [copy.copy(self.schema[n]) for n in names]

    def new(self, props=None, files=None, fmt=None, ext=None, sizes=None):
        self.n += 1
        rng = self.rng
        fmt = fmt or rng.choice(["jsonl", "jsonl", "jsonl", "parquet", "web"])
        if fmt == "jsonl" and ext is None:
            ext = rng.choice(["jsonl", "jsonl", *sorted(gen.COMPRESS)])
        sizes = sizes or [rng.choice([0, 1, 2, 7, 7, 30]) if fmt == "jsonl" else rng.choice([1, 2, 7, 30]) for _ in range(files or rng.choice([1, 2, 3, 6]))]
        if not any(sizes):
            sizes[0] = 3
        single = len(sizes) == 1 and rng.random() < 0.5
        return self.w.make_dataset(self.name(), self.props() if props is None else props, sizes, fmt=fmt, ext=ext, single_file=single, hostile=rng.random() < 0.2)

    def name(self):
        """Sometimes a name that could be mistaken for another one."""
        return self.similar() if self.rng.random() < 0.35 else f"d{self.n}"

    def similar(self):
        rng = self.rng
        old = rng.choice([d.name for d in self.w.datasets] or ["d0"])
        new = rng.choice([old.swapcase(), old.swapcase(), old + " ", " " + old, old[:-1] + "_", old[:-1] + "%", "%", "_" * len(old), f"'{old}'", old + "';--", old + "\u0301", old * 2, old[:-1] or "x", "*"])
        self.ctx.count("similar_names")
        return new if new not in self.ever and new not in {d.name for d in self.w.datasets} else f"d{self.n}"

    def register(self, ds, pid, name=None):
        self.ever.append(name or ds.name)
        return attempt(self.client.register_dataset, name or ds.name, str(ds.path), gen.dataset_type(ds.fmt), gen.PARSERS[ds.fmt], pid)

    def succeed(self, ds, pid, what):
        ok, e = self.register(ds, pid)
        self.ctx.check(ok is True, f"{what}: registration of a valid dataset fails ({ok}, {e!r})", "valid-refused", error=repr(e), samples=[s.meta for s in ds.samples][:20])
        self.w.datasets.append(ds)
        self.used |= {p.name for p in ds.props}
        self.ctx.count("added")
        self.expect(what, True)

    def refuse(self, ds, pid, what, name=None):
        ok, e = self.register(ds, pid, name)
        self.ctx.check(ok is not True, f"{what}: the registration is reported as successful", "invalid-accepted")
        self.ctx.count("refused")
        self.expect(what, False)

    # -- comparison -------------------------------------------------------------------------------------------
    def expect(self, what, changed):
        """Compares all that can be observed with the ledger."""
        ctx, rng = self.ctx, self.rng
        names = sorted(d.name for d in self.w.datasets)
        ctx.note(after=what, registered=names)
        got = self.client.list_datasets()
        ctx.check(sorted(got) == names, f"after {what}, the collection lists {sorted(got)} instead of {names}", "list")
        for n in rng.sample(self.ever, min(4, len(self.ever))) + [self.similar()]:
            ctx.check(self.client.check_dataset_exists(n) is (n in names), f"after {what}, check_dataset_exists({n}) is wrong", "exists")
        v = self.db_version()
        if v is not None:
            ctx.check(v >= self.version and (v > self.version or not changed), f"after {what}, the version of the collection goes from {self.version} to {v}", "version")
            self.version = v
        samples = self.w.samples()
        cols = {k: p for k, p in self.schema.items() if k in self.used}
        plans = [[]] + ([gen.random_query(rng, cols)] if cols else [])
        if cols:
            # the same query again and again: an earlier result must not be used
            plans.append(self.fixed if getattr(self, "fixed", None) else gen.random_query(rng, cols))
            self.fixed = plans[-1]
        for plan in plans:
            self.n += 1
            want = Counter((s.text, gen.domain_of(s.meta)) for s in samples if gen.selects(plan, s.meta, cols))
            ctx.note(query=plan, want=len(want))
            if not want:
                continue
            self.compare(f"q{self.n}", plan, want, what)
        ctx.evaluated()

    def compare(self, job, plan, want, what):
        from mixtera.core.query.mixture import ArbitraryMixture

        ctx = self.ctx
        try:
            with ctx.cpu_limit(60, f"streaming all samples after {what}", "endless-stream"):
                ok = self.client.execute_query(gen.build_query(job, plan), acc.exec_args(ArbitraryMixture(chunk_size=self.rng.choice([3, 50, 1000]))))
                ctx.check(ok is True, f"after {what}, a query fails", "query-fails")
                got, ids, texts = Counter(), {}, []
                for chunk in acc.chunks_of(self.client, job):
                    for k, v in acc.id_to_domain(chunk).items():
                        ctx.check(ids.setdefault(k, v) == v, f"after {what}, domain id {k} means {ids[k]} and {v}", "domain-id")
                    for dom, rows in acc.chunk_rows(chunk).items():
                        texts += [(r, dom) for r in rows]
                rows = {jobs.location(self.w, s): s.text for s in self.w.samples()}
                for r, dom in texts:
                    ctx.check(r in rows, f"after {what}, a query yields sample {r} of no registered dataset", "ghost", query=plan)
                    got[(rows[r], dom)] += 1
        except (RuntimeError, KeyError, FileNotFoundError) as e:
            ctx.fail(f"after {what}, reading the collection fails: {e!r}", "query-raises", query=plan)
        ctx.check(got == want, f"after {what}, the samples found differ from those registered: missing {len(want - got)}, too many {len(got - want)}", "content",
                  missing=list((want - got))[:4], extra=list((got - want))[:4], query=plan)
        if self.rng.random() < 0.15:  # and they can be read
            read = Counter(x[2] for x in acc.stream(self.client, self.again(plan), chunk_reading_prefetch_first_sample=False))
            ctx.check(read == Counter(t for (t, _), n in want.items() for _ in range(n)), f"after {what}, the texts read differ from those registered", "texts")
            ctx.count("samples_read", sum(read.values()))
        ctx.count("queries")
        ctx.count("samples_compared", sum(want.values()))

    def again(self, plan):
        from mixtera.core.query.mixture import ArbitraryMixture

        self.n += 1
        job = f"r{self.n}"
        self.ctx.check(self.client.execute_query(gen.build_query(job, plan), acc.exec_args(ArbitraryMixture(chunk_size=20))) is True, "a repeated query fails", "query-fails")
        return job

    # -- faults -----------------------------------------------------------------------------------------------
    def files(self, ds):
        return [ds.path] if ds.single_file else sorted(ds.path.iterdir())

    def spoil(self, ds):
        """Breaks one file of the dataset; returns what was done, or None if it does not apply."""
        rng = self.rng
        files = self.files(ds)
        f = rng.choice(files[-1:] + files)
        mine = [s for s in ds.samples if s.file == f.name]
        options = ["garbage"]
        plain = f.suffix == ".jsonl"
        if mine:
            options += ["bad-meta"] * 4
        if plain and mine:
            options += ["bad-json", "no-text", "bad-utf8", "nonsense"]
        if f.suffix in (".gz", ".bz2", ".xz", ".parquet"):  # not .zst: whether xopen notices that one is truncated depends on timing
            options += ["truncate"] * 3
        if len(files) > 1:
            options += ["dangling", "directory"] if not ds.single_file else []
        what = rng.choice(options)
        data = f.read_bytes()
        if what == "garbage":
            f.write_bytes(b"\xff\xfe" + bytes(rng.randrange(256) for _ in range(rng.choice([20, 600]))) + b"\n")
        elif what == "truncate":
            f.write_bytes(data[: rng.choice([len(data) // 2, len(data) - 4])])
        elif what == "dangling":
            f.unlink()
            f.symlink_to(f.parent / "nowhere")
        elif what == "directory":
            f.unlink()
            f.mkdir()
        elif what == "bad-meta":
            return self.bad_meta(ds, f, mine)
        else:
            lines = data.split(b"\n")[:-1]
            k = rng.choice([0, len(lines) - 1, rng.randrange(len(lines))])
            lines[k] = {"bad-json": lines[k][:-1], "no-text": b'{"txt": 1}', "bad-utf8": lines[k][:-2] + b"\xff\xfe" + lines[k][-2:], "nonsense": b"nonsense"}[what]
            f.write_bytes(b"\n".join(lines) + b"\n")
        return what

    def bad_meta(self, ds, f, mine):
        rng = self.rng
        k = rng.choice([0, len(mine) - 1, rng.randrange(len(mine))])
        options = [("required", p) for p in ds.props if not p.nullable] + [("list", p) for p in ds.props if not p.multiple] + [("option", p) for p in ds.props if p.dtype == "ENUM"] * 2
        if not options:
            return None
        kind, p = rng.choice(options)
        meta = dict(mine[k].meta)
        if kind == "required":
            if rng.random() < 0.5:
                meta[p.name] = None
            else:
                meta.pop(p.name)
        elif kind == "list":
            meta[p.name] = [p.values[0], p.values[1]]
        else:
            wrong = rng.choice(["no option", p.values[0] + " ", p.values[0].upper() + "X", ""])
            meta[p.name] = [p.values[0], wrong] if p.multiple and rng.random() < 0.7 else wrong
        bad = [copy.copy(s) for s in mine]
        bad[k].meta = meta
        ext = f.name.split(".", 1)[1]
        if ds.fmt == "jsonl":
            gen.write_jsonl(f, bad, ext)
        elif ds.fmt == "parquet":
            gen.write_parquet(f, bad)
        else:
            gen.write_web(f, bad)
        self.ctx.count("bad_" + kind)
        return f"bad-meta-{kind}"

    # -- operations -------------------------------------------------------------------------------------------
    def op_add(self):
        ds = self.new()
        self.succeed(ds, self.parser(ds.props), f"adding {ds.name} ({ds.fmt})")

    def op_fault(self):
        ds = self.new()
        pid = self.parser(ds.props)
        saved = self.w.root / f"saved{self.n}"
        files = self.files(ds)
        saved.mkdir()
        for f in files:
            shutil.copy(f, saved / f.name)
        what = None
        while what is None:
            what = self.spoil(ds)
        self.ctx.distinct(what, ds.fmt, len(files), len(self.w.datasets))
        self.refuse(ds, pid, f"a registration that fails because of {what} in {ds.name} ({ds.fmt}, {len(files)} files)")
        for _ in range(self.rng.choice([0, 0, 1])):
            self.refuse(ds, pid, f"a second registration that fails because of {what} in {ds.name}")
        if self.rng.random() < 0.75:
            if self.rng.random() < 0.3:
                self.reopen()
                self.ctx.count("reopened")
            for f in files:
                if f.is_symlink() or f.is_file():
                    f.unlink()
                else:
                    f.rmdir()
                shutil.copy(saved / f.name, f)
            self.succeed(ds, pid, f"retrying {ds.name} after {what} is repaired")
            self.ctx.count("retried")

    def op_dup(self):
        if not self.w.datasets:
            return self.op_add()
        old = self.rng.choice(self.w.datasets)
        ds = self.new() if self.rng.random() < 0.7 else old
        self.refuse(ds, self.parser(ds.props), f"registering the taken name {old.name} again", name=old.name)
        self.ctx.distinct("dup", ds.fmt, ds is old)

    def op_wrong(self):
        ds = self.new()
        pid = self.parser(ds.props)
        what = self.rng.choice(["unknown parser", "missing path", "no files", "missing file", "other format", "missing parser properties"])
        real = ds.path, ds.single_file, ds.fmt
        bad = pid
        if what == "unknown parser":
            bad = "never registered"
        elif what == "missing path":
            ds.path = self.w.root / "nowhere"
        elif what == "no files":
            ds.path = self.w.root / f"empty{self.n}"
            ds.path.mkdir()
            (ds.path / "readme.md").write_text("nothing here", "ascii")
        elif what == "missing file":
            ds.path = self.w.root / f"nowhere.{gen.EXT[ds.fmt]}"
        elif what == "other format":
            if ds.single_file:
                return None
            ds.fmt = {"jsonl": "parquet", "parquet": "web", "web": "jsonl"}[ds.fmt]
        else:
            missing = [copy.copy(self.schema[n]) for n in self.schema if n not in {p.name for p in ds.props}]
            if not missing:
                return None
            for p in missing:
                p.nullable = False
            bad = self.parser(ds.props + missing)
        self.refuse(ds, bad, f"registering {ds.name} with {what}")
        ds.path, ds.single_file, ds.fmt = real
        self.ctx.distinct("wrong", what, ds.fmt)
        if self.rng.random() < 0.6:
            self.succeed(ds, pid, f"retrying {ds.name} after {what}")
            self.ctx.count("retried")
        return None

    def op_parser(self):
        """A parser with a mistake in its schema, which is corrected afterwards."""
        fresh = sorted(set(self.schema) - self.used)
        if not fresh:
            return None
        name = self.rng.choice(fresh)
        right = self.schema[name]
        right.nullable = False
        props = [copy.copy(right)] + [p for p in self.props(1) if p.name != name]
        self.rng.shuffle(props)
        ds = self.new(props=props, sizes=[self.rng.choice([20, 40]), 20])
        wrong = []
        for p in props:
            q = copy.copy(p)
            if p.name == name:
                kind = self.rng.choice(["options", "options", "list"])
                if kind == "options" or p.multiple is False:
                    q.dtype, q.values = "ENUM", tuple(v for v in p.values if not any(v in (s.meta[name] if p.multiple else [s.meta[name]]) for s in ds.samples[-3:])) or ("other",)
                else:
                    if not any(isinstance(s.meta[name], list) for s in ds.samples):
                        return None
                    q.multiple = False
            wrong.append(q)
        self.refuse(ds, self.parser(wrong), f"a registration with a wrong schema for {name}")
        self.succeed(ds, self.parser(props), f"registering with the corrected schema for {name}")
        self.ctx.distinct("parser", right.dtype, right.multiple)
        self.ctx.count("parser_corrected")
        return None

    def op_names(self):
        """Property names that the database or the index builder might trip over: either refused without a trace, or everything works."""
        rng = self.rng
        twin = rng.choice(sorted(self.schema))
        odd = gen.PropSpec(rng.choice(["_x", "\u00e4", "intervals", "id", "LONG", "value", "base_data"]) if rng.random() < 0.4 else rng.choice(["order", "my prop", "a.b", "1st", "diff", "group_id", "Group_ID", "interval_start", "interval_end", "Diff", "sample_id", "file_id", "dataset_id",
                                       "select", "a,b", 'q"q', "x;y", "self", "", twin.swapcase(), twin.title()]), "STRING", False, False, ("A", "B"))
        if odd.name in self.schema or odd.name.lower() in self.schema and odd.name.lower() not in self.used:
            return None  # the database does not distinguish columns by case: the other one would be refused
        fresh = gen.PropSpec(f"fresh{self.n}", rng.choice(["STRING", "ENUM"]), rng.random() < 0.4, False, ("X", "Y", "it's"))
        props = [fresh, odd] + self.props(rng.choice([1, 2]))
        rng.shuffle(props)
        ds = self.new(props=props)
        ok, _ = self.register(ds, self.parser(props))
        what = f"registering {ds.name} with a property called {odd.name!r}"
        self.ctx.distinct("names", odd.name, ok is True, fresh.dtype)
        if ok is True:
            self.w.datasets.append(ds)
            self.used |= {p.name for p in props}
            self.schema.update({fresh.name: fresh, odd.name: odd})
            self.expect(what, True)
            for plan in ([[(odd.name, "==", "A")]], [[(fresh.name, "==", "X")]]):
                want = Counter((s.text, gen.domain_of(s.meta)) for s in self.w.samples() if gen.selects(plan, s.meta, self.schema))
                if want:
                    self.n += 1
                    self.compare(f"q{self.n}", plan, want, what)
            self.ctx.count("odd_names_accepted")
            return None
        self.expect(what, False)
        self.ctx.count("odd_names_refused")
        right = copy.copy(fresh)
        change = rng.choice(["list", "options", "nothing"])
        if change == "list":
            right.multiple = not fresh.multiple
        elif change == "options":
            right.dtype, right.values = "ENUM", ("P", "Q")
        props = [right if p is fresh else p for p in props if p is not odd]
        other = self.new(props=props)
        self.schema[right.name] = right
        self.succeed(other, self.parser(props), f"registering with the corrected schema, after a property called {odd.name!r} was refused")
        return None

    def op_blank(self):
        """An empty line in a file: either the registration fails, or all samples can be read nevertheless."""
        ds = self.new(fmt="jsonl", ext="jsonl")
        f = self.rng.choice(self.files(ds))
        lines = f.read_bytes().split(b"\n")
        lines.insert(self.rng.randrange(len(lines)), self.rng.choice([b"", b"", b" "]))
        f.write_bytes(b"\n".join(lines))
        what = f"registering {ds.name} with an empty line"
        ok, _ = self.register(ds, self.parser(ds.props))
        self.ctx.count("empty_lines")
        if ok is not True:
            return self.expect(what, False)
        read, e = attempt(lambda: Counter(x[2] for x in acc.stream(self.client, self.again([]), chunk_reading_prefetch_first_sample=False)))
        self.ctx.check(read is not False, f"after {what}, which is accepted, the samples cannot be read: {e!r}", "texts")
        want = Counter(s.text for s in self.w.samples() + ds.samples)
        self.ctx.check(read == want, f"after {what}, the texts read differ from those registered", "texts")
        attempt(self.client.remove_dataset, ds.name)
        return self.expect(f"removing {ds.name}", True)

    def op_conflict(self):
        """The schema says list where the collection has single values, or the other way round."""
        used = sorted(self.used)
        if not used:
            return self.op_add()
        p = copy.copy(self.schema[self.rng.choice(used)])
        p.multiple = not p.multiple
        ds = self.new(props=[p])
        if not any(p.name in s.meta for s in ds.samples):
            return None
        self.refuse(ds, self.parser([p]), f"registering {p.name} with multiple={p.multiple} where it is in use with the opposite")
        self.ctx.distinct("conflict", p.name, p.dtype, p.multiple)
        self.ctx.count("list_conflicts")
        return None

    def op_remove(self):
        if len(self.w.datasets) < 1:
            return self.op_add()
        ds = self.rng.choice(self.w.datasets)
        ok, e = attempt(self.client.remove_dataset, ds.name)
        self.ctx.check(ok is True, f"removing {ds.name} fails: {e!r}", "removal")
        self.w.datasets.remove(ds)
        self.ctx.count("removed")
        self.expect(f"removing {ds.name}", True)
        if self.rng.random() < 0.4:
            self.succeed(ds, self.parser(ds.props), f"registering the removed {ds.name} again")
        return None

    def op_remove_missing(self):
        name = self.rng.choice(["never there", self.similar(), *[n for n in self.ever if n not in {d.name for d in self.w.datasets}]])
        ok, _ = attempt(self.client.remove_dataset, name)
        self.ctx.check(ok is not True, f"removing {name}, which is not there, is reported as successful", "removal")
        self.expect(f"removing {name}, which is not there", False)

    def op_reopen(self):
        self.reopen()
        self.ctx.count("reopened")
        self.expect("opening the collection again", False)

    def gated(self):
        """A dataset whose registration waits at its first sample until the gate opens."""
        ds = self.new(fmt="jsonl", files=self.rng.choice([1, 3]))
        gate = self.w.root / f"gate{self.n}"
        gate.mkdir()
        cls = gen.make_parser(ds.props)
        plain = cls.parse

        def parse(self, line_number, payload, **kwargs):
            (gate / f"in{os.getpid()}").touch()
            while not (gate / "open").exists():
                srv._sleep(0.005)
            plain(self, line_number, payload, **kwargs)

        cls.parse = parse
        pid = f"gated{self.n}"
        self.client.register_metadata_parser(pid, cls)
        return ds, pid, gate

    def op_queried_meanwhile(self):
        """The queries asked all the time are executed while a dataset is being registered: later executions must include it."""
        if self.remote:
            return None
        ds, pid, gate = self.gated()
        if getattr(self, "fixed", None) is None:
            self.expect("a look at the collection", False)
        before = sorted(d.name for d in self.w.datasets)
        out = []
        t = threading.Thread(target=lambda: out.append(self.register(ds, pid)), daemon=True)
        t.start()
        try:
            while t.is_alive() and not any(gate.iterdir()):
                srv._sleep(0.005)
            for plan in [[]] + ([self.fixed] if getattr(self, "fixed", None) else []):
                attempt(self.again, plan)
            got = [n for n in attempt(self.client.list_datasets)[0] or [] if n != ds.name]
            self.ctx.check(sorted(got) == before, f"while {ds.name} is being registered, the collection lists {sorted(got)} instead of {before}", "list")
        finally:
            (gate / "open").touch()
        t.join()
        ok, e = out[0]
        self.ctx.check(ok is True, f"a registration fails while queries are executed ({ok}, {e!r})", "valid-refused")
        self.w.datasets.append(ds)
        self.used |= {p.name for p in ds.props}
        self.ctx.count("queried_meanwhile")
        self.expect(f"queries were executed while {ds.name} was being registered", True)
        return None

    def op_removed_meanwhile(self):
        """Somebody removes the dataset while it is being registered."""
        if self.remote:
            return None
        ds, pid, gate = self.gated()
        out = []
        t = threading.Thread(target=lambda: out.append(self.register(ds, pid)), daemon=True)
        t.start()
        try:
            while t.is_alive() and not any(gate.iterdir()):
                srv._sleep(0.005)
            removed, _ = attempt(self.client.remove_dataset, ds.name)
        finally:
            (gate / "open").touch()
        t.join()
        ok = out[0][0]
        self.ctx.note(removed=removed, registered=repr(out[0]))
        self.ctx.check((ok is True) != (removed is True), f"{ds.name} was removed ({removed}) while it was being registered ({ok})", "removed-meanwhile")
        if ok is True:
            self.w.datasets.append(ds)
            self.used |= {p.name for p in ds.props}
        self.ctx.count("removed_meanwhile")
        self.expect(f"removing {ds.name} while it is being registered", True)
        return None

    def op_many(self):
        """More files than are processed at once."""
        p = self.props(1)
        n = self.rng.choice([2001, 2003, 4001])
        ds = self.new(props=p, fmt="jsonl", ext="jsonl", sizes=[1] * n)
        pid = self.parser(p)
        files = self.files(ds)
        if self.rng.random() < 0.6:
            k = self.rng.choice([n - 1, 2000])
            data = files[k].read_bytes()
            files[k].write_bytes(b"nonsense\n")
            self.refuse(ds, pid, f"a registration of {n} files of which one is broken")
            self.used |= {p[0].name}  # the column may have been created, with the same schema
            files[k].write_bytes(data)
        self.succeed(ds, pid, f"registering {n} files")
        self.ctx.count("many_files")
        self.ctx.distinct("many", n)


def run_case(ctx, st, i):
    rng = ctx.rng
    if ctx.quick and i % 20 == 7 or not ctx.quick and i % 60 == 7:
        c = Case(ctx, st, False)
        try:
            c.op_add()
            c.op_many()
            c.op_remove()
        finally:
            c.close()
        return
    remote = i % 5 == 4
    c = Case(ctx, st, remote)
    ops = ["add"] * 3 + ["fault"] * 6 + ["dup", "wrong", "wrong", "parser", "parser", "conflict", "remove", "remove", "remove_missing", "reopen", "removed_meanwhile", "queried_meanwhile", "names", "names", "blank"]
    try:
        seq = [rng.choice(ops) for _ in range(rng.choice([4, 6, 8]))]
        if i % 3 == 0:
            seq.insert(0, rng.choice(["parser", "fault", "wrong"]))
        if i % 4 == 1:
            seq.insert(0, "names")
        for op in seq:
            ctx.note(history=(ctx.case_log.get("history") or []) + [op])
            getattr(c, "op_" + op)()
            ctx.count("operations")
            if remote:
                ctx.count("remote_operations")
        ctx.sample(dict(operations=seq, remote=remote, datasets=[(d.name, d.fmt, len(d.samples)) for d in c.w.datasets]))
    finally:
        c.close()
