"""Plays recorded schedules of requests, feedback and checkpoints on a job and records what every consumer receives."""
import random
import re
import shutil
import time
from pathlib import Path

from vh import acc, gen, jobs


class Mix:
    """Description of any mixture; built anew in whatever process needs it."""

    def __init__(self, kind, chunk_size, strict, parts=(), steps=(), initial=None, alg=None):
        self.kind, self.chunk_size, self.strict, self.parts, self.steps, self.initial, self.alg = kind, chunk_size, strict, parts, steps, initial, alg

    def build(self):
        from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, StaticMixture

        if self.kind == "arbitrary":
            return ArbitraryMixture(chunk_size=self.chunk_size)
        if self.kind == "inferring":
            return InferringMixture(chunk_size=self.chunk_size, strict=self.strict)
        if self.kind == "static":
            return StaticMixture(chunk_size=self.chunk_size, mixture={jobs.key_of(d): w for d, w in self.parts}, strict=self.strict)
        if self.kind == "schedule":
            from mixtera.core.query.mixture.mixture_schedule import MixtureSchedule, ScheduleEntry

            return MixtureSchedule(self.chunk_size, [ScheduleEntry(s, m.build()) for s, m in self.steps])
        if self.kind == "dynamic":
            from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

            return DynamicMixture(self.chunk_size, self.initial.build(), make_alg(self.alg), strict=self.strict)
        raise ValueError(self.kind)

    def describe(self):
        return {k: (v.describe() if isinstance(v, Mix) else ([(s, m.describe()) for s, m in v] if k == "steps" else v)) for k, v in vars(self).items() if v}


def static_of(spec: jobs.MixSpec) -> Mix:
    return Mix(spec.kind, spec.chunk_size, spec.strict, [(d, spec.shares[d]) for d in spec.order])


def make_alg(kind):
    if kind == "avg":
        from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

        return SimpleAveragingAlgorithm()
    from vh import algs

    return algs.make(kind)


def random_mix(rng, doms, chunk_sizes=(2, 3, 5, 7, 12), kinds=("arbitrary", "static", "static", "inferring", "schedule", "dynamic", "dynamic"), overlap=False, strict=None, entries=(2, 3)):
    kind = rng.choice(kinds)
    cs = rng.choice(chunk_sizes)
    st = (rng.random() < 0.4) if strict is None else strict
    if kind == "schedule":
        starts = sorted(rng.sample(range(0, 12), rng.choice(entries)))
        if rng.random() < 0.6:
            starts[0] = 0
        parts = []
        for s in starts:
            m = jobs.random_mixture(rng, doms, kinds=("static", "static", "inferring"), overlap=overlap, chunk_sizes=(cs,), strict=st)
            if m.kind == "arbitrary":
                m = jobs.MixSpec("inferring", cs, st)
            parts.append((s, static_of(m)))
        rng.shuffle(parts)
        return Mix("schedule", cs, st, steps=parts)
    if kind == "dynamic":
        m = jobs.random_mixture(rng, doms, kinds=("static", "inferring"), overlap=False, chunk_sizes=(cs,), strict=st)
        if m.kind == "arbitrary":
            m = jobs.MixSpec("inferring", cs, st)
        return Mix("dynamic", cs, st, initial=static_of(m), alg=rng.choice(["avg", "wave", "wave"]))
    return static_of(jobs.random_mixture(rng, doms, kinds=(kind,), overlap=overlap, chunk_sizes=(cs,), strict=st))


class Refused(Exception):
    pass


def play(home, job, acts, prefix_ids=None, server=True, opts=None, dims=(1, 1, 1), client=None, log=False):
    """Runs the actions; returns dict(out=[...], ids={label: checkpoint id}).

    exec plan mix | restore label | take (consumer) | chunk-free actions: feedback, checkpoint label order, refuse, wait label, drain
    """
    from mixtera.core.client import MixteraClient

    own = client is None
    if own:
        client = MixteraClient.from_directory(home)
    streams, pos, out, ids, newest, seen = {}, {}, [], dict(prefix_ids or {}), {}, []
    changes = {}
    opts = opts or {}
    dp, nodes, workers = dims
    consumers = [(d, n, w) for d in range(dp) for n in range(nodes) for w in range(max(1, workers))]

    def take(c):
        if c not in streams:
            streams[c] = acc.stream(client, job, *c, **opts)
        try:
            idx, kid, s = next(streams[c])
        except StopIteration:
            return ("end",)
        pos[c] = idx + 1
        newest[c] = client.current_mixture_id
        if newest[c] not in seen:
            seen.append(newest[c])
        return (idx, kid, s, client.current_mixture_id if log else None)

    for a in acts:
        kind = a[0]
        if kind == "exec":
            ok = client.execute_query(gen.build_query(job, a[1]), acc.exec_args(a[2].build(), *dims))
            out.append(ok)
        elif kind == "restore":
            client.restore_checkpoint(job, ids[a[1]])
            streams, pos = {}, {c: 0 for c in consumers}
            if len(a) > 2:
                pos.update(a[2])
            out.append(None)
        elif kind == "take":
            out.append(take(a[1]))
        elif kind == "feedback":
            from mixtera.network.client.client_feedback import ClientFeedback
            import numpy as np

            mid = a[4] if a[4] is not None else max([m for m in newest.values() if m is not None] or [0])
            out.append(client.process_feedback(job, ClientFeedback(training_steps=a[1], losses=None if a[2] is None else np.array(a[2], dtype=np.float32),
                                                                  counts=None if a[3] is None else np.array(a[3], dtype=np.int64), mixture_id=mid)))
        elif kind == "checkpoint":
            cid = None
            slow_copies(len(a) > 4 and a[4])
            for d, n in a[2]:
                got = client.checkpoint(job, d, n, [pos.get((d, n, w), 0) for w in range(max(1, workers))], server=server)
                cid = cid or got
                assert got == cid, "participants of one checkpoint got different ids"
            ids[a[1]] = cid
            changes[a[1]] = len(seen)
            if a[3]:
                wait(client, job, cid)
            out.append((cid, dict(pos)))
        elif kind == "broken":  # a checkpoint whose directory is taken already, so that it cannot be written
            last = ids[a[1]]
            m = re.search(r"^(.*?)(\d+)$", str(last))
            there = [p for p in Path(home).rglob(str(last)) if p.is_dir()]
            err = "unknown layout"
            if m and len(there) == 1:
                taken = there[0].parent / f"{m[1]}{int(m[2]) + 1}"
                taken.mkdir()
                (taken / "other").write_text("x")
                err = None
                try:
                    for d, n in a[2]:
                        cid = client.checkpoint(job, d, n, [pos.get((d, n, w), 0) for w in range(max(1, workers))], server=server)
                    wait(client, job, cid)
                    ids[a[3]] = cid
                except RuntimeError as e:
                    err = str(e)
            out.append(err)
        elif kind == "call":
            a[1](client)
            out.append(None)
        elif kind == "wait":
            wait(client, job, ids[a[1]])
            out.append(None)
        elif kind == "refuse":
            err = None
            try:
                for d, n in a[1]:
                    client.checkpoint(job, d, n, [pos.get((d, n, w), 0) for w in range(max(1, workers))], server=server)
            except RuntimeError as e:
                err = str(e)
            out.append(err)
        elif kind == "drain":
            res = {c: [] for c in consumers}
            live, r, n = list(consumers), random.Random(a[1]), 0
            while live:
                c = r.choice(live)
                x = take(c)
                n += 1
                assert n < 20000, "endless stream"
                if x == ("end",):
                    live.remove(c)
                else:
                    res[c].append(x)
            out.append(res)
    if own:
        client._mdc._connection.close()
    return dict(out=out, ids=ids, changes=changes)


def slow_copies(on, _orig=shutil.copytree):
    """Injected delay: directories are copied slowly (inherited by the forked process that persists a checkpoint)."""
    def slow(*args, **kw):
        time.sleep(0.4)
        return _orig(*args, **kw)

    shutil.copytree = slow if on else _orig


def wait(client, job, cid):
    t0 = time.monotonic()
    while not client.checkpoint_completed(job, cid, True):
        time.sleep(0.003)
        if time.monotonic() - t0 > 120:
            raise TimeoutError("checkpoint does not complete")
