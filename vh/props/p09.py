"""P09: cached query results equal freshly computed ones."""
import os
import shutil

from vh import acc, crash, gen, jobs, play, proc
from vh.props.p01 import build_world
from vh.props.p06 import stream_options
from vh import tok

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with crash injection: histories with a cache against the same histories without one, interrupted at sampled points of writing the cache"
NOTE = ("held on the executed histories: every execution (chunks, ids, mixtures, streamed samples) is compared with the same execution on a copy of the collection "
        "whose cache is emptied before; the writing process is killed or gets an I/O error before a chosen file operation, its last file possibly cut off")
RULE = ("an evaluation is one execution of a job compared completely with its counterpart without a cache; distinct by history and trace; non-trivial: the query had "
        "been executed before (possibly interrupted); fault points are the file operations below the cache directory, sampled in quick and enumerated in some thorough cases")
ASSUMPTIONS = ["a process dies between two file operations, its last unfinished file may be cut off at any length", "the collection is changed by one process at a time"]
CASES = {"quick": 36, "thorough": 1000}
BUDGET = {"quick": 70, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 120
MUST_OBSERVE = ["repeated_executions", "kills", "io_errors", "executions_after_interruption", "executions_after_change", "truncated_files", "neighbours", "confusable_queries"]
MIN_EVALUATIONS = {"quick": 60, "thorough": 700}


class State:
    z = None


def setup(ctx):
    st = State()
    st.z = proc.Child(ctx.scratch_root, name="zygote", cpu=60, fork=True)
    from vh.boot import boot

    boot()
    tok.save(ctx.scratch_root / "tok")
    return st


def purge(home):
    d = os.path.join(home, "querycache")
    for x in os.listdir(d) if os.path.isdir(d) else []:
        shutil.rmtree(os.path.join(d, x))


def one(client, job, plan, mix, dims, opts, what):
    assert client.execute_query(gen.build_query(job, plan), acc.exec_args(mix.build(), *dims)), "execute_query returned False"
    out = []
    for dp in range(dims[0]):
        for wk in range(dims[2]):
            if what == "chunks":
                seq = []
                for c in acc.chunks_of(client, job, dp, 0, wk):
                    t = jobs.trace_chunk(c)
                    seq.append((t.mixture_id, sorted(t.rows.items()), sorted(t.ids.items()), list(t.rows)))
            else:
                seq = [(kid, s) for _, kid, s in acc.stream(client, job, dp, 0, wk, **opts)]
            out.append(seq)
    return out


def batch(home, steps, parsers, fresh, log=None):
    """Runs the steps in one process. fresh: no execution may find a cached result."""
    from mixtera.core.client import MixteraClient

    client = MixteraClient.from_directory(home)
    for pid, props in parsers:
        client.register_metadata_parser(pid, gen.make_parser(props))
    out = []
    for s in steps:
        if s[0] == "register":
            _, ds = s
            out.append(client.register_dataset(ds.name, str(ds.path), gen.dataset_type(ds.fmt), gen.PARSERS[ds.fmt], ds.parser_id))
        elif s[0] == "remove":
            out.append(client.remove_dataset(s[1]))
        else:
            _, job, plan, mix, dims, opts, what, fault = s
            if fault == "retry":
                if out[-1][0] == "ok":  # without the fault there is nothing to do again
                    out.append(out[-1])
                    continue
                fault = None
            if fresh:
                purge(home)
            n = None
            if fault is not None:
                crash.arm(os.path.join(home, "querycache"), 0 if fresh else fault[1], "kill" if fresh else fault[0], log)
            try:
                res = ("ok", one(client, job, plan, mix, dims, opts, what))
            except Exception as e:  # pylint: disable=broad-except
                if fault is None or fresh:
                    raise
                res = ("error", f"{type(e).__name__}: {e}"[:300])
            if fault is not None:
                n = crash.disarm()
            out.append(res + (n,))
    client._mdc._connection.close()
    return out


def random_history(rng, ctx, w, plans, doms, spare):
    """Batches of steps; a batch runs in one process."""
    seen, batches, jobno, faulted, live = set(), [], 0, False, [d.name for d in w.datasets]
    for _ in range(rng.choice([3, 4, 5])):
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.12 and spare:
                d = spare.pop()
                live.append(d.name)
                steps.append(("register", d))
            elif r < 0.2 and len(live) > 1:
                steps.append(("remove", live.pop(rng.randrange(len(live)))))
            n = rng.randrange(len(plans))
            jobno += 1
            mix = play.random_mix(rng, doms, kinds=("arbitrary", "static", "static", "inferring", "schedule"), chunk_sizes=(3, 5, 8, 20))
            dims = rng.choice([(1, 1, 1), (1, 1, 1), (1, 1, 2), (2, 1, 1)])
            opts = stream_options(rng, ctx)[1] if rng.random() < 0.4 else {}
            if mix.kind == "arbitrary" and "chunk_reading_tokenizer" in opts:
                opts = {}
            what = "stream" if opts else "chunks"
            fault = None
            if not faulted and rng.random() < 0.6:
                fault = [rng.choice(["kill", "kill", "error"]), None, rng.random()]
                faulted = True
            steps.append(["exec", f"job{jobno}", plans[n], mix, dims, opts, what, fault])
            if fault:
                if fault[0] == "error":  # the same job again
                    steps.append(["exec", f"job{jobno}", plans[n], mix, dims, opts, what, "retry"])
                else:
                    break
        batches.append(steps)
        if faulted and rng.random() < 0.5:
            faulted = False
    last = [s for b in batches for s in b if s[0] == "exec"][-1]
    batches.append([["exec", "jobfinal", last[2], last[3], last[4], last[5], last[6], None]])
    return batches


def neighbour(rng, plan, cols):
    """A query that differs in a detail only."""
    plan = [list(sel) for sel in plan]
    k = rng.randrange(len(plan))
    j = rng.randrange(len(plan[k]))
    name, op, value = plan[k][j]
    kind = rng.choice(["value", "value", "value", "op", "split", "join", "drop", "twice"])
    if kind == "value":
        other = rng.choice([v for v in cols[name].values if v != value])
        if value is None and "None" in cols[name].values:
            other = "None"
        plan[k][j] = (name, op if op in ("==", "!=") else "==", rng.choice([other, None, [other] if isinstance(value, str) else other, [value, other] if isinstance(value, str) else other]))
    elif kind == "op":
        plan[k][j] = (name, "!=" if op == "==" else "==", value)
    elif kind == "split" and len(plan[k]) > 1:
        plan[k:k + 1] = [plan[k][:j], plan[k][j:]] if j else [[c] for c in plan[k]]
    elif kind == "join" and len(plan) > 1:
        plan = [[c for sel in plan for c in sel]]
    elif kind == "drop" and len(plan[k]) > 1:
        plan[k].pop(j)
    else:
        plan.append([plan[k].pop(j)] if len(plan[k]) > 1 else plan[k])
    return plan


def confusable_world(ctx, rng):
    """Values that look alike once they are written down."""
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    prop = gen.PropSpec("license", "STRING", rng.random() < 0.3, True, ("None", "MIT", "mit", "['MIT']", "1", "True"))
    for d in range(rng.choice([1, 2])):
        values = [None, *prop.values] * rng.choice([1, 3])
        rng.shuffle(values)
        metas = [{} if v is None else {"license": [v] if prop.multiple else v} for v in values]
        ds = w.make_dataset(f"ds{d}", [prop], [len(metas)], metas=[metas])
        ctx.check(w.register(ds) is True, f"registration of {ds.name} failed")
    op = rng.choice(["==", "==", "!="])
    pairs = [(None, "None")] * 3 + [("MIT", "mit"), (["MIT"], "['MIT']"), (["MIT", "1"], ["1", "MIT"]), ("1", "True")]
    return w, [[[("license", op, v)]] for v in rng.choice(pairs)]


def run_case(ctx, st, i):
    rng = ctx.rng
    confused = None
    if i % 6 == 3:
        w, confused = confusable_world(ctx, rng)
    else:
        w = build_world(ctx, rng, formats=("jsonl", "jsonl", "parquet"))
    cols, alls = w.columns(), w.samples()
    plans = [[]]
    for _ in range(3):
        p = gen.random_query(rng, cols)
        # at least one match in every dataset, so that removals cannot make the result empty
        if p and all(any(gen.selects(p, s.meta, cols) for s in d.samples) for d in w.datasets):
            plans.append(p)
    rng.shuffle(plans)
    plans = plans[:2]
    if confused:
        plans = confused
        ctx.count("confusable_queries")
    elif plans[0] and i % 2:
        for _ in range(12):
            p = neighbour(rng, plans[0], cols)
            if p != plans[0] and all(any(gen.selects(p, s.meta, cols) for s in d.samples) for d in w.datasets):
                ctx.count("neighbours", len(plans) == 1 or plans[1] is not p)
                plans[1:] = [p]
                break
    spare = []
    for k in range(2):
        src = rng.choice(w.datasets)
        ds = w.make_dataset(f"late{k}", src.props, [rng.choice([3, 9, 20])], fmt=src.fmt)
        ds.parser_id = src.parser_id
        if all(not p or any(gen.selects(p, s.meta, cols) for s in ds.samples) for p in plans):
            spare.append(ds)
    doms = [gen.domain_of(s.meta) for s in alls if all(gen.selects(p, s.meta, cols) for p in plans)] or [gen.domain_of(s.meta) for s in alls]
    parsers = sorted({d.parser_id: d.props for d in w.datasets}.items())
    w.close()
    shadow = w.root / "shadow"
    shutil.copytree(w.home, shadow)
    history = random_history(rng, ctx, w, plans, doms, spare)
    ctx.note(history=[[s if s[0] != "exec" and s[0] != "register" else (s[0], s[1] if s[0] == "exec" else s[1].name) + (
        (s[2], s[3].describe(), s[4], s[6], s[7]) if s[0] == "exec" else ()) for s in b] for b in history])
    if not ctx.quick and i % 10 == 0:
        return enumerate_points(ctx, st, w, parsers, plans[0], doms)
    executed, interrupted, changed = set(), set(), False
    for steps in history:
        try:
            want = st.z.call("vh.props.p09:batch", shadow, steps, parsers, True)
        except (proc.ChildError, proc.ChildDied) as e:
            raise_for(ctx, e, "without a cache")
        for s, r in zip(steps, want):  # choose the point of the fault: the shadow counted them
            if s[0] == "exec" and isinstance(s[7], list):
                s[7][1] = 1 + int(s[7][2] * r[2])
        died, log = False, ctx.scratch_root / "crash.log"
        try:
            got = st.z.call("vh.props.p09:batch", w.home, steps, parsers, False, log)
        except proc.ChildDied as e:
            if steps[-1][0] != "exec" or not isinstance(steps[-1][7], list) or steps[-1][7][0] != "kill" or e.rc != -9:
                raise_for(ctx, e, "with a cache")
            died, got = True, [None] * len(steps)
            ctx.count("kills")
            truncate_last(ctx, rng, log)
        except proc.ChildError as e:
            raise_for(ctx, e, f"with a cache, after {ctx_history(executed, interrupted, changed)}")
        for s, a, b in zip(steps, want, got):
            if s[0] in ("register", "remove"):
                ctx.check(died or a == b is True, f"{s[0]} returned {b} with a cache and {a} without", "change-differs")
                changed = True
                interrupted_before = executed.copy()
                interrupted |= set()
                ctx.count("changes")
                continue
            q = str(s[2])
            if died:
                interrupted.add(q)
                executed.add(q)
                continue
            if b[0] == "error":
                ctx.count("io_errors")
                interrupted.add(q)
                executed.add(q)
                continue
            compare(ctx, a[1], b[1], s, ctx_history(executed, interrupted, changed))
            ctx.evaluated()
            ctx.count("executions")
            ctx.count("items", sum(map(len, a[1])))
            if q in executed:
                ctx.count("repeated_executions")
                ctx.distinct(i, s[1], a[1])
                if changed:
                    ctx.count("executions_after_change")
            if q in interrupted:
                ctx.count("executions_after_interruption")
            executed.add(q)
    ctx.sample(dict(batches=len(history), executed=len(executed)))


def ctx_history(executed, interrupted, changed):
    return f"{len(executed)} queries executed, {len(interrupted)} interrupted while cached, collection {'changed' if changed else 'unchanged'}"


def raise_for(ctx, e, when):
    if isinstance(e, proc.ChildDied):
        ctx.fail(f"the process executing the query {when} died: {e}", "crash")
    if e.who == "repo":
        ctx.fail(f"executing the query {when} failed: {e.typ}: {e.text[:300]}", f"raises-{e.typ}", traceback=e.tb[-2500:])
    raise e


def truncate_last(ctx, rng, log):
    """What a killed process had not flushed is missing in the file it wrote last."""
    lines = log.read_text().splitlines()
    if len(lines) < 2 or rng.random() < 0.4:
        return
    event, path = lines[-2].split(" ", 1)
    if event == "open" and os.path.isfile(path):
        size = os.path.getsize(path)
        with open(path, "rb+") as f:
            f.truncate(rng.choice([0, 0, size // 2, max(0, size - 1)]))
        ctx.count("truncated_files")


def compare(ctx, a, b, step, when):
    what = dict(job=step[1], plan=step[2], mixture=step[3].describe())
    for x, y in zip(a, b):
        for n, (p, q) in enumerate(zip(x, y)):
            ctx.check(p == q, f"item {n} of the job differs from the execution without a cache ({when})", "differs", without=p, with_cache=q, **what)
        ctx.check(len(x) == len(y), f"{len(y)} items instead of {len(x)} without a cache ({when})", "differs", **what)


def enumerate_points(ctx, st, w, parsers, plan, doms):
    """Every single crash point of one caching."""
    rng = ctx.rng
    mix = play.random_mix(rng, doms, kinds=("static", "arbitrary"), chunk_sizes=(5, 20))
    step = ["exec", "probe", plan, mix, (1, 1, 1), {}, "chunks", ["kill", 0, 0]]
    shadow = w.root / "shadow"
    try:
        (_, want, points), = st.z.call("vh.props.p09:batch", shadow, [step], parsers, True)
    except (proc.ChildError, proc.ChildDied) as e:
        raise_for(ctx, e, "without a cache")
    log = ctx.scratch_root / "crash.log"
    for k in range(1, min(points, 60) + 1):
        purge(w.home)
        step[1], step[7] = f"k{k}", ["kill", k, 0]
        try:
            st.z.call("vh.props.p09:batch", w.home, [step], parsers, False, log)
        except proc.ChildDied:
            ctx.count("kills")
            truncate_last(ctx, rng, log)
        except proc.ChildError as e:
            raise_for(ctx, e, "with a cache")
        again = [["exec", f"k{k}_{n}", plan, mix, (1, 1, 1), {}, "chunks", None] for n in range(2)]
        try:
            for s, r in zip(again, st.z.call("vh.props.p09:batch", w.home, again, parsers, False)):
                compare(ctx, want, r[1], s, f"caching interrupted before operation {k} of {points}")
                ctx.evaluated()
                ctx.count("executions_after_interruption")
        except (proc.ChildError, proc.ChildDied) as e:
            raise_for(ctx, e, f"after caching was interrupted before operation {k} of {points}")
        ctx.distinct(ctx.case if hasattr(ctx, "case") else 0, k, want)
    ctx.count("enumerated_histories")


def finish(ctx, st):
    st.z.close()
