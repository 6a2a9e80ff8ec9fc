"""P14: a remote client observes the same as a local one."""
import threading
import traceback
from pathlib import Path

from vh import acc, gen, jobs, play, proc, srv
from vh.ctx import Violation
from vh.props import p10

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the same scripts of operations on a real server over loopback and on a local collection, all observations compared"
NOTE = ("held on the executed scripts (catalogue operations, queries, streaming with and without tunnelling, feedback, checkpoints, restores, "
        "several jobs and clients at once in threads)")
RULE = ("an evaluation is one compared observation script: the catalogue script of a case, or the complete history of one job over the "
        "network next to the same history on a local client; distinct by script")
ASSUMPTIONS = ["a failing operation may raise locally where the server reports failure", "an execution over the network reports its outcome when it is waited for",
               "parsing functions do not depend on the line terminator (files read through the server come without it, as the tests demand)",
               "requests about unknown jobs are covered by P26"]
CASES = {"quick": 44, "thorough": 900}
BUDGET = {"quick": 75, "thorough": 650}
SHARDS = {"quick": 6, "thorough": 6}
CASE_CPU = 150
QUIESCE = 60
MUST_OBSERVE = ["jobs_compared", "catalogue_ops", "failed_ops_compared", "tunnelled_jobs", "restores", "feedbacks", "concurrent_jobs", "samples_compared",
                "catalogue_during_jobs", "burst_jobs", "raw_lines"]
MIN_EVALUATIONS = {"quick": 30, "thorough": 400}


class State:
    pass


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


def attempt(fn, *args):
    try:
        return fn(*args)
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return ("raised", f"{type(e).__name__}: {e}"[:300], "".join(traceback.format_exception(e))[-2500:])


def failed(x):
    return x is False or (isinstance(x, tuple) and x and x[0] == "raised")


class ExecutionFailed(Exception):
    pass


class Pair:
    """The same operation on the local and the remote client."""

    def __init__(self, ctx, local, remote):
        self.ctx, self.local, self.remote, self.ops = ctx, local, remote, []

    def __call__(self, name, *args):
        self.ops.append((name, *[str(a)[-60:] for a in args]))
        self.ctx.note(operations=self.ops[-12:])
        a, b = attempt(getattr(self.local, name), *args), attempt(getattr(self.remote, name), *args)
        self.ctx.count("catalogue_ops")
        same = (failed(a) and failed(b)) or a == b
        self.ctx.check(same, f"{name} gives {a!r} locally and {b!r} through the server", f"differs-{name}")
        if failed(a):
            self.ctx.count("failed_ops_compared")
        return a


def catalogue(ctx, rng, w, pair, props_of, tag, n):
    """A random script of catalogue operations; datasets appear in both collections."""
    live = {}
    for k in range(n):
        what = rng.choice(["add", "add", "add", "dup", "unknown-parser", "missing", "remove", "remove-missing", "parser-again", "check", "list"])
        if what == "add":
            name = f"{tag}{k}"
            props = props_of(rng)
            fmt = rng.choice(["jsonl", "jsonl", "parquet", "web"])
            ds = w.make_dataset(name, props, [rng.choice([1, 3, 9, 20]) for _ in range(rng.randrange(1, 4))], fmt=fmt,
                                hostile=rng.random() < 0.4, ext="jsonl.gz" if fmt == "jsonl" and rng.random() < 0.3 else None)
            pid = f"P_{name}"
            raw = fmt == "jsonl" and rng.random() < 0.5
            if raw:
                p10.pad_lines(rng, ds)
                ctx.count("raw_lines")
            pair("register_metadata_parser", pid, srv.parser_class(w.root, props))
            ok = pair("register_dataset", name, str(ds.path) if rng.random() < 0.5 else Path(ds.path), gen.dataset_type(fmt), parsing(fmt, f"<{name}>", raw), pid)
            ctx.check(ok is True, f"registration of {name} fails: {ok}", "registration")
            for s in ds.samples:
                s.text = f"<{name}>" + s.text
            live[name] = (ds, pid)
        elif what == "dup" and live:
            name = rng.choice(sorted(live))
            ds, pid = live[name]
            pair("register_dataset", name, str(ds.path), gen.dataset_type(ds.fmt), gen.PARSERS[ds.fmt], pid)
        elif what == "unknown-parser" and live:
            ds, _ = live[rng.choice(sorted(live))]
            pair("register_dataset", f"{tag}u{k}", str(ds.path), gen.dataset_type(ds.fmt), gen.PARSERS[ds.fmt], "no such parser")
        elif what == "missing" and live:
            pair("register_dataset", f"{tag}m{k}", str(w.root / "not there"), gen.dataset_type("jsonl"), gen.PARSERS["jsonl"], live[rng.choice(sorted(live))][1])
        elif what == "remove" and len(live) > 1:
            name = rng.choice(sorted(live))
            if pair("remove_dataset", name) is True:
                del live[name]
        elif what == "remove-missing":
            pair("remove_dataset", f"never {k}")
        elif what == "parser-again" and live:
            pair("register_metadata_parser", live[rng.choice(sorted(live))][1], srv.parser_class(w.root, []))
        elif what == "check":
            known = rng.choice(sorted(live) or ["x"])
            pair("check_dataset_exists", rng.choice(sorted(live) + ["x", f"{tag}u{k - 1}", known.upper(), known + " ", known + "%", known[:-1] + "_"]))
        got = pair("list_datasets")
        ctx.check(failed(got) or sorted(d for d in got if d in live) == sorted(live), "list_datasets misses datasets", "list", got=got, live=sorted(live))
    return live


def parsing(fmt, tag, raw):
    import json

    if raw:
        return lambda line: tag + line.removesuffix("\n")
    if fmt == "jsonl":
        return lambda line: tag + json.loads(line)["text"]
    if fmt == "parquet":
        return lambda record: tag + record["text"]
    return lambda sample: tag + sample[".txt"]


def job_script(rng, mix, dims, domains):
    """Actions of one job, checkpoints and restores included."""
    dp, nodes, workers = dims
    consumers = [(d, n, w) for d in range(dp) for n in range(nodes) for w in range(max(1, workers))]
    acts, step, labels = [], 0, []

    def takes():
        out = []
        for d in range(dp):
            for w in range(max(1, workers)):
                out += [(d, n, w) for n in range(nodes)] * rng.choice([0, 1, 2, mix.chunk_size, mix.chunk_size + 1])
        rng.shuffle(out)
        return [("take", c) for c in out]

    for seg in range(rng.choice([1, 2, 3])):
        acts += takes()
        for _ in range(rng.choice([0, 1, 2])):
            step += rng.choice([1, 1, 3])
            m = rng.randrange(1, domains + 1)
            some = rng.random() < 0.8
            acts.append(("feedback", step, [round(rng.random() * 5, 2) for _ in range(m)] if some else None,
                         [rng.randrange(1, 50) for _ in range(m)] if some else None, rng.randrange(0, 3)))
        if rng.random() < 0.6:
            acts.append(("checkpoint", seg, [(d, n) for d in range(dp) for n in range(nodes)], True))
            labels.append((seg, [a[1] for a in acts if a[0] == "take"]))
    if labels and rng.random() < 0.7:
        seg, taken = rng.choice(labels)
        acts += takes()
        acts.append(("restore", seg))
        acts.append(("wait-exec",))
    acts += takes()
    acts.append(("drain", rng.randrange(1000)))
    return acts, consumers


def run_job(client, job, plan, mix, acts, dims, opts):
    """Plays a job; everything a user of this client sees, in order."""
    def waited(c):
        if not c.wait_for_execution(job):
            raise ExecutionFailed

    seen = []
    full = [("exec", plan, mix), ("call", waited)]
    full += [("call", waited) if a[0] == "wait-exec" else a for a in acts]
    res = play.play(None, job, full, client=client, dims=dims, opts=opts, log=True)
    for a, r in zip(full, res["out"]):
        if a[0] == "checkpoint":
            seen.append(("checkpoint", r[1]))
        elif a[0] == "exec":
            seen.append(("executed", r))
        else:
            seen.append((a[0], r))
    return seen


def run_case(ctx, st, i):
    rng = ctx.rng
    base = ctx.dir("c")
    w = gen.World(base / "data", rng)
    shared = [gen.PropSpec("language", "STRING", False, False, ("en", "de", "fr", "b:y")), *([gen.PropSpec("topic", "STRING", True, False, ("law", "art", ""))] if rng.random() < 0.5 else [])]
    w.connect()  # the local collection
    server = srv.Server(st.child, base / "server")
    try:
        remote = server.client()
        pair = Pair(ctx, w.client, remote)
        with ctx.cpu_limit(60, "the catalogue script", "hang"):
            live = catalogue(ctx, rng, w, pair, lambda r: shared, "d", rng.choice([3, 5, 8]))
        if not live:
            return
        ctx.evaluated()
        ctx.distinct(pair.ops)
        samples = [s for ds, _ in live.values() for s in ds.samples]
        doms = [gen.domain_of(s.meta) for s in samples]
        cols = {p.name: p for p in shared}
        scripts = []
        together = rng.random() < 0.6
        for j in range(rng.choice([1, 2, 3])):
            plan = [] if rng.random() < 0.5 else gen.random_query(rng, cols)
            if together:  # others change the collection meanwhile
                plan = [[("language", "==", rng.sample(["en", "de", "fr", "b:y"], rng.choice([1, 2, 4])))]]
            mix = play.random_mix(rng, doms, chunk_sizes=(2, 3, 5, 9, 30))
            dims = rng.choice([(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 2)])
            known = len({gen.domain_of(s.meta) for s in samples if gen.selects(plan, s.meta, cols)})
            if mix.kind == "dynamic" and mix.initial.kind == "static":
                known = len(mix.initial.parts)
            acts, _ = job_script(rng, mix, dims, max(1, known))
            tunnel = rng.random() < 0.5
            opts = {"chunk_reading_prefetch_first_sample": rng.random() < 0.5}
            if rng.random() < 0.3:
                opts.update(chunk_reading_mixture_type="window", chunk_reading_window_size=rng.choice([1, 3, 8]), chunk_reading_window_best_effort=True)
            elif rng.random() < 0.1:
                opts.update(chunk_reading_degree_of_parallelism=2)
            scripts.append((f"job{j}", plan, mix, acts, dims, opts, tunnel))
        ctx.note(jobs=[(s[0], s[1], s[2].describe(), s[4], s[5], s[6]) for s in scripts])
        want = {}
        for job, plan, mix, acts, dims, opts, _ in scripts:
            from mixtera.core.client import MixteraClient

            c = MixteraClient.from_directory(w.home)  # a client per job: clients report the mixture of what they stream
            want[job] = attempt(run_job, c, job, plan, mix, acts, dims, opts)
            c._mdc._connection.close()
        got = {}
        def one(job, plan, mix, acts, dims, opts, tunnel):
            got[job] = attempt(run_job, server.client(), job, plan, mix, acts, dims, dict(opts, tunnel_via_server=True) if tunnel else opts)

        threads = [threading.Thread(target=one, args=s, daemon=True) for s in scripts]
        for t in threads:
            t.start()
            if not together:
                t.join()
        if together:
            try:
                others(ctx, rng, w, server, shared, lambda: [not t.is_alive() for t in threads])
            except (RuntimeError, TimeoutError) as e:
                ctx.fail(f"a catalogue request fails while jobs run: {e!r} after {e.__context__!r}", "catalogue-during-jobs", server=server.stacks())
        for t in threads:
            t.join()
        for job, plan, mix, acts, dims, opts, tunnel in scripts:
            if isinstance(got[job], tuple) and not isinstance(want[job], tuple):
                ctx.note(server=server.stacks())
            compare(ctx, job, want[job], got[job])
            ctx.count("jobs_compared")
            if tunnel:
                ctx.count("tunnelled_jobs")
            if together and len(scripts) > 1:
                ctx.count("concurrent_jobs")
            ctx.count("restores", sum(a[0] == "restore" for a in acts))
            ctx.count("feedbacks", sum(a[0] == "feedback" for a in acts))
            ctx.evaluated()
            ctx.distinct(plan, mix.describe(), acts)
        ctx.check(server.alive(), "the server process died", "server-died", log=server.log()[-2000:])
        a, b = (attempt(repeated, ctx, rng.__class__(i), c, doms) for c in (w.client, remote))
        ctx.note(repeated=True)
        compare(ctx, "repeated", a, b)
        ctx.count("repeated_executions")
        ctx.evaluated()
        if rng.random() < 0.4:
            burst(ctx, rng, w, server, doms, cols)
        ctx.sample(dict(jobs=[(s[0], s[2].describe(), s[4]) for s in scripts], operations=len(pair.ops)))
    finally:
        server.stop()
        w.close()


def burst(ctx, rng, w, server, doms, cols):
    """Many clients execute queries at the same time, some of them the same one."""
    from mixtera.core.query.mixture import ArbitraryMixture

    plans = [[], *[gen.random_query(rng, cols) for _ in range(2)]]
    todo = [(f"burst{k}", rng.choice(plans), rng.choice([3, 7])) for k in range(rng.choice([4, 8]))]
    ctx.note(burst=todo)

    def play_one(client, job, plan, size):
        done = client.execute_query(gen.build_query(job, plan), acc.exec_args(ArbitraryMixture(chunk_size=size))) and client.wait_for_execution(job)
        return [("call", done), ("drain", {0: list(acc.stream(client, job)) if done else None})]

    want = {t[0]: attempt(play_one, w.client, *t) for t in todo}
    got, gate = {}, threading.Barrier(len(todo))

    def one(t):
        client = server.client()
        gate.wait(60)
        got[t[0]] = attempt(play_one, client, *t)

    threads = [threading.Thread(target=one, args=(t,), daemon=True) for t in todo]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for job, *_ in todo:
        compare(ctx, job, want[job], got[job])
        ctx.count("burst_jobs")
        ctx.evaluated()


def repeated(ctx, rng, client, doms):
    """Executions that fail, are repeated, or come twice under one job id; feedback for jobs that do not exist."""
    from mixtera.core.query import Query
    from mixtera.core.query.mixture import ArbitraryMixture
    from mixtera.network.client.client_feedback import ClientFeedback

    def execute(job, query, mixture=True):
        try:
            if not client.execute_query(query, acc.exec_args(ArbitraryMixture(chunk_size=4) if mixture else None)):
                return False
            srv.napped.seconds = 0
            ok = client.wait_for_execution(job)
            srv.wait_for_failure(ctx, client, job, ok)
            return ok
        except Violation:
            raise
        except Exception:  # pylint: disable=broad-except
            return False

    def good(job):
        return Query.for_job(job).select([("language", "==", sorted({v for d in doms for k, vs in d if k == "language" for v in vs}))])

    seen = [("call", client.process_feedback("no such job", ClientFeedback(training_steps=3)))]
    for job in rng.sample(["r1", "r2", "r3"], 2):
        if rng.random() < 0.6:
            how = rng.choice(["property", "type", "mixture"])  # none of these can be executed; some are refused right away, some fail later
            if how == "property":
                seen.append(("call", ("bad", execute(job, Query.for_job(job).select([("no such property", "==", "x")])))))
            elif how == "type":
                seen.append(("call", ("bad", execute(job, Query.for_job(job).select([("language", "==", 3)])))))
            else:
                seen.append(("call", ("bad", execute(job, good(job), False))))
        seen.append(("call", ("good", execute(job, good(job)))))
        it = acc.stream(client, job)
        seen += [("take", next(it)) for _ in range(1)]
        if rng.random() < 0.7:
            seen.append(("call", ("again", execute(job, good(job)))))
            seen.append(("call", ("still there", client.wait_for_execution(job))))
        seen += [("drain", {0: list(it)})]
    return seen


def others(ctx, rng, w, server, shared, stop):
    """While jobs run, another client adds and removes datasets the jobs do not select, and asks about the catalogue."""
    client = server.client()
    meta = {p.name: (["zz"] if p.multiple else "zz") for p in shared}
    known = sorted(client.list_datasets())
    k = 0
    while k < 2 or (not all(stop()) and k < 12):
        name = f"other{k}"
        ds = w.make_dataset(name, shared, [rng.choice([1, 5, 30])], uniform=meta)
        ctx.check(client.register_metadata_parser(f"P_{name}", srv.parser_class(w.root, shared)) is True, "parser refused while jobs run", "concurrent-register")
        ctx.check(client.register_dataset(name, str(ds.path), gen.dataset_type("jsonl"), gen.PARSERS["jsonl"], f"P_{name}") is True,
                  "registration fails while jobs run", "concurrent-register", log=server.log()[-2500:])
        ctx.check(client.check_dataset_exists(name) is True and sorted(client.list_datasets()) == sorted(known + [name]), "the catalogue is wrong while jobs run", "concurrent-list")
        ctx.check(client.remove_dataset(name) is True, "removal fails while jobs run", "concurrent-remove", log=server.log()[-2500:])
        ctx.check(client.check_dataset_exists(name) is False, "a removed dataset still exists", "concurrent-remove")
        ctx.count("catalogue_during_jobs")
        k += 1


def compare(ctx, job, want, got):
    ctx.check(not (isinstance(got, tuple) and not isinstance(want, tuple)), f"{job} works locally but fails through the server: {got[1] if isinstance(got, tuple) else ''}",
              "remote-fails", got=str(got)[:1000])
    ctx.check(not (isinstance(want, tuple) and not isinstance(got, tuple)), f"{job} works through the server but fails locally: {want[1] if isinstance(want, tuple) else ''}", "local-fails")
    if isinstance(want, tuple):
        ctx.check("ExecutionFailed" in got[1], f"the job cannot be executed locally ({want[1]}), and fails while streaming remotely ({got[1]})", "job-fails")
        ctx.count("jobs_that_cannot_be_executed")
        return
    for k, (a, b) in enumerate(zip(want, got)):
        if a[0] == "drain":
            for c in a[1]:
                x, y = a[1][c], b[1].get(c)
                ctx.count("samples_compared", len(x))
                if x != y:
                    at = next((n for n, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    ctx.fail(f"{job}: consumer {c} gets {len(x)} samples locally and {len(y)} through the server, first difference at {at}", "drain-differs",
                             local=x[at:at + 3], remote=y[at:at + 3])
            continue
        if a[0] == "take":
            ctx.count("samples_compared")
        ctx.check(a == b, f"{job}: step {k} ({a[0]}) gives {a[1]!r} locally and {b[1]!r} through the server", f"differs-{a[0]}")
    ctx.check(len(want) == len(got), "the histories have different lengths", "length")
