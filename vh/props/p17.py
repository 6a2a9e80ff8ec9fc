"""P17: dynamic mixtures stay valid distributions over the right domains."""
import zlib

import numpy as np

from vh import acc, gen, jobs, proc, srv, train

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: algorithms are fed random report sequences and judged by exact averages, distribution invariants and metamorphic relations (domains "
             "renamed, reports split); jobs with dynamic mixtures are judged chunk by chunk against weights computed for the domains outside the repository")
NOTE = ("held on the executed report sequences and jobs; scaling-law fits use a reduced grid of starting points in most runs (the optimiser is SciPy's); the ADO weights "
        "themselves are judged by invariants and relations between runs, not against another implementation")
RULE = ("an evaluation is one report judged at an algorithm, or one chunk judged against the weights in force; distinct by the reports so far")
ASSUMPTIONS = ["losses are sums over the counted tokens of a domain, positive where the count is; arrays reach at least to the last domain reported on",
               "the configured minimum share is kept before the final normalisation, as documented: at least delta_min / (1 + domains * delta_min)",
               "a report with values that are not numbers may be refused, as long as the mixture in force stays valid"]
CASES = {"quick": 42, "thorough": 1500}
BUDGET = {"quick": 60, "thorough": 640}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 150
QUIESCE = 90
MUST_OBSERVE = ["averages_compared", "ado_mixtures", "ado_renamed", "ado_split", "ado_shorter_reports", "ado_new_domains", "chunks_judged", "mixture_changes", "attributions_compared",
                "remote_chunks", "reports_without_losses", "min_share_checks", "bad_reports", "late_mixture_ids", "late_steps"]
MIN_EVALUATIONS = {"quick": 800, "thorough": 10000}


class State:
    child = None


def cheap_fits(keep=29):
    """Every scaling-law fit starts from hundreds of points; keep some of them (inherited by forked workers)."""
    from types import SimpleNamespace

    from mixtera.core.algo.ado import ado

    real = getattr(ado, "minimize", None)
    if real is None:
        return
    first, success = [], [False]

    def some(fun, x0, *args, **kw):
        x0 = np.asarray(x0, dtype=np.float64)
        if not first:
            first.append(x0)
        if np.array_equal(first[0], x0):  # the next fit
            success[0] = False
        if success[0] and zlib.crc32(x0.tobytes()) % keep:  # the same points in every process
            return SimpleNamespace(success=False, fun=np.inf, x=None)
        r = real(fun, x0, *args, **kw)
        success[0] = success[0] or (r.success and np.isfinite(r.fun))
        return r

    ado.minimize = some


def serve(home, port, pidfile):
    cheap_fits(KEEP)
    srv.serve(home, port, pidfile)


KEEP = 29


def setup(ctx):
    from vh.boot import boot

    boot()
    srv.fast_polling()
    cheap_fits(KEEP)
    st = State()
    st.child = proc.Child(ctx.scratch_root, cpu=600, fork=True, group=True, name="server", env={"LOGURU_LEVEL": "WARNING"})
    return st


# -- algorithms alone -------------------------------------------------------------------------------------------------
def distribution(ctx, m, n, what):
    ctx.check(isinstance(m, np.ndarray) and m.ndim == 1 and len(m) <= n, f"{what}: {m!r} is no mixture of {n} domains", "no-distribution")
    ctx.check(bool(np.all(np.isfinite(m))) and bool(np.all(m >= 0)) and abs(float(m.sum()) - 1) < 1e-5, f"{what}: {m} is no probability distribution", "no-distribution")


def averaging(ctx, rng):
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

    alg = SimpleAveragingAlgorithm()
    total, count = np.zeros(0), np.zeros(0)
    history = []
    for _ in range(rng.choice([3, 8, 20])):
        n = rng.choice([1, 2, 3, 4, 7])
        c = np.array([rng.choice([0, 0, 1, 5, 100, 4096]) for _ in range(n)], dtype=np.int64)
        per = np.array([rng.choice([0.0, 0.5, 2.0, rng.random() * 9]) for _ in range(n)])
        losses = (per * c).astype(np.float32)
        history.append((losses.tolist(), c.tolist()))
        ctx.note(algorithm="average", reports=history[-6:])
        m = alg.process_losses(losses.copy(), c.copy(), rng.choice([0, 0, 1, 2]))
        k = max(n, len(total))
        total, count = np.pad(total, (0, k - len(total))), np.pad(count, (0, k - len(count)))
        total[:n] += losses
        count[:n] += c
        if not count.any():
            ctx.check(m is None, f"without any counted token the mixture becomes {m}", "average")
            continue
        avg = np.where(count > 0, total / np.maximum(count, 1), 0)
        want = avg / avg.sum() if avg.sum() > 0 else (count > 0) / (count > 0).sum()
        ctx.check(m is not None and len(m) == k, f"the mixture has {None if m is None else len(m)} domains instead of {k}", "average")
        distribution(ctx, m, k, "averaging")
        ctx.check(np.allclose(m, want, rtol=1e-3, atol=1e-5), f"the mixture {m} is not the loss per token over all reports, {want}", "average")
        ctx.count("averages_compared")
        ctx.evaluated()
        ctx.distinct("avg", history)


class Reports:
    """A sequence of reports of a made-up training."""

    def __init__(self, rng, domains, steps, sizes="mixed"):
        self.per = [rng.uniform(2.0, 8.0) for _ in range(domains)]
        self.reports = []
        mid = 0
        top = domains if rng.random() < 0.5 else max(1, domains - 1)
        for t in range(steps):
            if t > steps // 2:
                top = domains
            n = top if rng.random() < 0.7 else rng.randrange(1, top + 1)
            c = [rng.choice([0, 256, 512, 1024, 2048]) for _ in range(n)]
            if not any(c):
                c[rng.randrange(n)] = 512
            per = [round(p * (1 + 2.0 / (t + 2)) * 64) / 64 for p in self.per[:n]]
            mid = max(0, mid + rng.choice([0, 0, 1, 1, -1]))
            self.reports.append((per, c, mid))

    def arrays(self, perm=None, split=None, length=None):
        for per, c, mid in self.reports:
            if split is not None:
                c = split(c)
            losses = np.array([p * x for p, x in zip(per, c)], dtype=np.float32)
            counts = np.array(c, dtype=np.int64)
            if perm is not None:
                k = length
                a, b = np.zeros(k, np.float32), np.zeros(k, np.int64)
                a[perm[: len(losses)]] = losses
                b[perm[: len(counts)]] = counts
                losses, counts = a, b
            yield losses, counts, mid


def run_ado(ctx, params, initial, reports, n, what):
    from mixtera.core.algo.ado.ado import AdoDynamicMixing

    alg = AdoDynamicMixing(**params)
    alg.initial_mixture = np.array(initial, dtype=np.float32)
    out, seen, steps = [], np.zeros(n, dtype=np.int64), 0
    for losses, counts, mid in reports:
        steps += 1
        seen[: len(counts)] += counts
        before = losses.copy(), counts.copy()
        m = alg.process_losses(losses, counts, mid)
        ctx.check(np.array_equal(before[0], losses) and np.array_equal(before[1], counts), f"{what}: the reported arrays are modified", "modified")
        if steps < params["start_step"]:
            ctx.check(m is None, f"{what}: report {steps} changes the mixture before step {params['start_step']}", "warm-up")
        if steps == params["start_step"]:
            ctx.check(m is not None, f"{what}: no mixture at step {steps}, where updates start", "warm-up")
        if m is not None:
            distribution(ctx, m, n, f"{what}, report {steps}")
            floor = params["delta_min"] / (1 + n * params["delta_min"]) - 1e-6
            low = [k for k in range(len(m)) if seen[k] > 0 and m[k] < floor]
            ctx.check(not low, f"{what}, report {steps}: sampled domains {low} get {m[low] if low else None}, the minimum is {params['delta_min']}", "minimum", mixture=m.tolist())
            ctx.check(all(m[k] == 0 or initial[k:k + 1] or seen[k] for k in range(len(m))), "a domain nobody knows has a weight", "unknown-domain")
            ctx.count("ado_mixtures")
            ctx.count("min_share_checks", int((seen > 0).sum()))
        out.append(None if m is None else m.copy())
        ctx.evaluated()
    return out


def padded(m, n):
    return None if m is None else np.pad(m, (0, n - len(m)))


def ado(ctx, rng):
    n = rng.choice([2, 3, 4])
    steps = rng.choice([5, 8, 12])
    start = rng.choice([2, 3])
    params = dict(variant=rng.choice(["vanilla", "vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"]), gamma1=rng.choice([0.1, 0.5]), gamma2=rng.choice([0.1, 0.6, 0.95]),
                  s=rng.choice([0.5, 0.3]), delta_min=rng.choice([0.01, 0.05, 0.15, 0.0]), scaling_law_update_interval=rng.choice([2, 4, 50]), subsampling_interval=rng.choice([1, 1, 2]),
                  ignore_initial_steps=start - 1 if rng.random() < 0.5 else 1, start_step=start, savgol=rng.random() < 0.3, use_same_step_size=rng.random() < 0.6,
                  count_normalizer=rng.choice([None, 1024]))
    params["ignore_initial_steps"] = min(params["ignore_initial_steps"], start - 1)
    r = Reports(rng, n, steps)
    ctx.note(algorithm="ado", params=params, reports=[(a, b, c) for a, b, c in r.reports])
    w = jobs.split_weights(rng, n, False)
    w = [max(x, 0.02) for x in w]
    initial = [x / sum(w) for x in w]
    shorter = any(len(c) < n for _, c, _ in r.reports)
    ctx.count("ado_shorter_reports", shorter)
    ctx.count("ado_new_domains", max(len(c) for _, c, _ in r.reports[: steps // 2]) < n)
    base = run_ado(ctx, params, initial, r.arrays(), n, "ado")
    ctx.distinct(str(params), r.reports)
    # The same training with other numbers for the domains: the same weights for the same domains
    perm = np.array(rng.sample(range(n), n))
    moved = np.zeros(n)
    moved[perm] = initial
    again = run_ado(ctx, params, moved.tolist(), r.arrays(perm, None, n), n, "ado with other ids")
    for t, (a, b) in enumerate(zip(base, again)):
        ctx.check((a is None) == (b is None), f"report {t + 1} changes the mixture or not depending on the numbers of the domains", "renaming")
        if a is not None:
            ctx.check(np.allclose(padded(a, n), padded(b, n)[perm], atol=1e-4), f"after report {t + 1}, weights depend on the numbers of the domains", "renaming",
                      mixture=a.tolist(), renamed=b.tolist(), numbers=perm.tolist())
    ctx.count("ado_renamed")
    if params["use_same_step_size"]:
        # Counts only weigh the losses here: another distribution of the same tokens over the same domains, same loss per token
        def split(c):
            on = [k for k, x in enumerate(c) if x]
            total = sum(c)
            out = [0] * len(c)
            for k in on[1:]:
                out[k] = 128
            if on:
                out[on[0]] = total - 128 * (len(on) - 1)
            return out

        other = run_ado(ctx, params, initial, r.arrays(None, split), n, "ado with other counts")
        for t, (a, b) in enumerate(zip(base, other)):
            ctx.check((a is None) == (b is None) and (a is None or np.allclose(a, b, atol=1e-3)), f"after report {t + 1}, weights depend on how many tokens a loss per token was measured with",
                      "per-token", mixture=None if a is None else a.tolist(), other=None if b is None else b.tolist())
        ctx.count("ado_split")


# -- jobs ---------------------------------------------------------------------------------------------------------------
def make_alg(kind, rng_seed):
    from vh import algs

    if kind == "avg":
        from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

        return SimpleAveragingAlgorithm()
    if kind == "echo":
        return algs.Echo(rng_seed)
    from mixtera.core.algo.ado.ado import AdoDynamicMixing

    return AdoDynamicMixing(start_step=3, ignore_initial_steps=1, scaling_law_update_interval=4, subsampling_interval=1, savgol=False, gamma2=0.5, delta_min=0.03)


class Model:
    """The weights that are in force according to the reports, computed outside of the job."""

    def __init__(self, kind, seed, shares, ids):
        self.kind = kind
        self.shares = dict(shares)
        self.ids = ids
        self.total, self.count = {}, {}
        self.dead = False
        if kind != "avg":
            from vh import algs

            self.twin = algs.EchoTwin(seed) if kind == "echo" else make_alg(kind, seed)
            first = np.zeros(max(ids.values()) + 1, dtype=np.float32)
            for d, s in shares.items():
                first[ids[d]] = s
            self.twin.initial_mixture = first / first.sum()

    def report(self, losses, counts, mid):
        names = {i: d for d, i in self.ids.items()}
        if self.kind == "avg":
            for i, (x, c) in enumerate(zip(losses, counts)):
                self.total[i] = self.total.get(i, 0.0) + float(x)
                self.count[i] = self.count.get(i, 0) + int(c)
            avg = {i: self.total[i] / c for i, c in self.count.items() if c > 0}
            if not avg:
                return
            s = sum(avg.values())
            self.shares = {names[i]: (a / s if s > 0 else 1 / len(avg)) for i, a in avg.items()}
        else:
            m = self.twin.process_losses(losses.copy(), counts.copy(), mid)
            if m is not None:
                self.shares = {names[i]: float(x) for i, x in enumerate(m) if x > 0}


def job(ctx, st, rng, i):
    from mixtera.core.query.mixture import InferringMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.network.client.client_feedback import ClientFeedback

    w, langs = train.build_data(ctx, rng, per_domain=rng.choice([150, 300]))
    remote = i % 3 == 2
    server, client = None, w.client
    if remote:
        w.close()
        server = srv.Server(st.child, w.home, "vh.props.p17:serve")
        client = server.client()
    try:
        for q in range(2):
            size = rng.choice([5, 8, 13, 20])
            kind = rng.choice(["avg", "avg", "echo", "echo", "echo", "ado"])
            seed = rng.randrange(1000)
            infer = rng.random() < 0.2
            parts = train.random_parts(rng, langs, k=rng.randrange(2, len(langs) + 1))
            if infer:
                samples = w.samples()
                doms = [gen.domain_of(s.meta) for s in samples]
                parts = [(d, doms.count(d) / len(doms)) for d in sorted(set(doms))]
                if size < len(parts):
                    size = 20
                initial = InferringMixture(chunk_size=size, strict=False)
            else:
                initial = train.static(parts, rng.choice([size, size, 3]), False)
            ctx.note(algorithm=kind, initial=parts, chunk_size=size)
            name = f"j{q}"
            ok = client.execute_query(gen.build_query(name, []), acc.exec_args(DynamicMixture(size, initial, make_alg(kind, seed), strict=False)))
            ctx.check(ok is True and client.wait_for_execution(name) is True, "execute_query fails", "execute")
            watch = train.Watch(ctx, w, name, None if remote else w.home / "mixture_logs")
            model, reports, mid, stream = None, [], -1, acc.chunks_of(client, name)
            shares, rows = train.shares_of(parts), None
            dead = False
            for _ in range(rng.choice([5, 9, 14])):
                if model is not None and not dead:
                    for _ in range(rng.choice([0, 1, 1, 3])):
                        top = max(watch.ids[d] for d in model.shares) + 1
                        top = rng.choice([top, max(watch.ids[d] for d in train.shares_of(parts)) + 1])
                        own = {watch.ids[d] for d in train.shares_of(parts)}
                        counts = np.array([rng.choice([0, 64, 512, 1000]) if k in own else 0 for k in range(top)], dtype=np.int64)
                        if kind == "ado" and not counts.any():
                            counts[min(own)] = 64
                        losses = (np.array([rng.choice([0.5, 2.0, rng.random() * 9 + 0.1]) for _ in range(top)]) * counts).astype(np.float32)
                        report_mid = rng.choice([mid, mid, max(0, mid - 1)])
                        ctx.count("late_mixture_ids", report_mid < mid)
                        step = rng.choice([len(reports) + 1, len(reports) + 1, len(reports), 0, 10**6])  # reports of several nodes need not come in order
                        ctx.count("late_steps", step <= len(reports))
                        fb = dict(training_steps=step, mixture_id=report_mid)
                        kind_of = rng.random()
                        if kind_of < 0.2:  # only the step, or half of what is needed
                            extra = rng.choice([{}, {"losses": losses}, {"counts": counts}])
                            ctx.count("reports_without_losses")
                        else:
                            extra = dict(losses=losses, counts=counts)
                        reports.append({**fb, **{k: v.tolist() for k, v in extra.items()}})
                        ctx.note(reports=reports[-5:], number=len(reports), ids={str(d): k for d, k in watch.ids.items()})
                        ok = client.process_feedback(name, ClientFeedback(**fb, **{k: v.copy() for k, v in extra.items()}))
                        ctx.check(ok is True, "a report is not accepted", "report", server=server and server.log()[-2500:])
                        if len(extra) == 2:
                            model.report(losses, counts, report_mid)
                    shares = model.shares
                    if rng.random() < 0.08:
                        bad = np.full(len(parts) + 1, np.nan if rng.random() < 0.6 else np.inf, dtype=np.float32)
                        try:
                            client.process_feedback(name, ClientFeedback(training_steps=99, mixture_id=mid, losses=bad, counts=np.ones(len(bad), dtype=np.int64)))
                        except Exception:  # pylint: disable=broad-except
                            pass
                        ctx.count("bad_reports")
                        dead = True  # the algorithm may never recover, the mixture must
                if not watch.available({d: s for d, s in shares.items() if s > 0}, size):
                    break
                with ctx.cpu_limit(20, "producing one chunk", "endless"):
                    chunk = next(stream, None)
                ctx.check(chunk is not None, "the job ends although there is data for the mixture in force", "ends")
                if dead:  # whatever became of the report, chunks hold what some distribution says
                    t = jobs.trace_chunk(chunk)
                    counts = {d: len(r) for d, r in t.rows.items() if r}
                    watch.account(t)
                    ctx.check(sum(counts.values()) == size and set(counts) <= set(watch.ids), f"after a report without numbers, a chunk holds {counts}", "no-distribution")
                    ctx.evaluated()
                    continue
                t, counts = watch.judge(chunk, shares, size)
                if model is None:
                    for d, s in train.shares_of(parts).items():
                        ctx.check(d in watch.ids or round(s * size) == 0, f"domain {d} has no id", "domain-id")
                    model = Model(kind, seed, train.shares_of(parts), watch.ids)
                    if kind == "echo":
                        exact = {d: n / size for d, n in (t.reported or counts).items()}  # the algorithm gets rows, normalised
                        model = Model(kind, seed, exact, watch.ids)
                        model.shares = shares
                    if kind == "ado":
                        model = Model(kind, seed, {d: n / size for d, n in (t.reported or counts).items()}, watch.ids)
                        model.shares = shares
                mid = t.mixture_id
                ctx.count("remote_chunks", remote)
                ctx.count("attributions_compared", kind == "echo")
                ctx.distinct("job", kind, len(reports), sorted(counts.items()))
        ctx.sample(dict(algorithm=kind, reports=reports[-2:], shares={str(k): v for k, v in shares.items()}))
    finally:
        if server is not None:
            server.stop()
        else:
            w.close()


def run_case(ctx, st, i):
    rng = ctx.rng
    for _ in range(6):
        averaging(ctx, rng)
    ctx.case_log.clear()
    if i % 2 == 0:
        ado(ctx, rng)
        ctx.case_log.clear()
    job(ctx, st, rng, i)
