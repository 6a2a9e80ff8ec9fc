"""Ranks of a training that uses the helpers: one process each (used by P27)."""
import multiprocessing as mp
import random
import time
from pathlib import Path

from vh import loaders

_sleep = time.sleep


class Observer:
    """Records what clients of this process are asked to do, and the mixtures their streams have received."""

    def __init__(self):
        from mixtera.core.client.local import LocalStub
        from mixtera.core.client.server import ServerStub

        self.calls = []
        self.ids = {}  # id of client -> (received, certainly handed over)
        for cls in (LocalStub, ServerStub):
            self.watch(cls)

    def add(self, client):
        self.ids[id(client)] = mp.Array("i", [-1, -1])

    def watch(self, cls):
        feedback, checkpoint, stream, me = cls.process_feedback, cls.checkpoint, cls._stream_result_chunks, self

        def process_feedback(self, job_id, fb):
            res = feedback(self, job_id, fb)
            me.calls.append(("feedback", job_id, fb.training_steps, fb.mixture_id, array(fb.losses), array(fb.counts), res))
            return res

        def checkpoint_(self, job_id, dp_group_id, node_id, worker_status, *a, **kw):
            at = len(me.calls)
            me.calls.append(None)
            res = checkpoint(self, job_id, dp_group_id, node_id, worker_status, *a, **kw)
            me.calls[at] = ("checkpoint", job_id, dp_group_id, node_id, list(worker_status), res)
            return res

        def stream_(self, *a, **kw):
            for chunk in stream(self, *a, **kw):
                ids = me.ids[id(self)]
                with ids.get_lock():
                    ids[0] = max(ids[0], chunk.mixture_id)
                yield chunk
                with ids.get_lock():
                    ids[1] = max(ids[1], chunk.mixture_id)

        cls.process_feedback, cls.checkpoint, cls._stream_result_chunks = process_feedback, checkpoint_, stream_


def array(x):
    import numpy as np

    return None if x is None else np.asarray(x, dtype=float).tolist()


def mixture_of(spec):
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from vh import algs, train

    if spec[0] != "dynamic":
        return loaders.mixture_of(spec)
    return DynamicMixture(chunk_size=spec[1], initial_mixture=train.static(spec[2], spec[1], False), mixing_alg=algs.Recorder(spec[3]))


def values(spec):
    """The reported numbers in the type a training has them in."""
    import numpy as np
    import torch

    kind, xs = spec
    if kind is None:
        return None
    if kind in ("list", "tuple"):
        return {"list": list, "tuple": tuple}[kind](xs)
    if kind.startswith("np."):
        return np.array(xs, dtype=kind[3:])
    t = torch.tensor(xs, dtype=getattr(torch, kind.split(".")[1]))
    return t.requires_grad_() if kind.endswith(".grad") else t


class Holder:
    pass


def build(s, client, observer, dp, nd, job, restore=None):
    """dataset -> (dataset, loader, iterator for the training loop, holders to give to the helpers)"""
    import torch
    from mixtera.core.client.mixtera_client import ResultStreamingArgs
    from vh import acc, gen

    observer.add(client)
    query = gen.build_query(job, [])
    ea = acc.exec_args(mixture_of(s["mixture"]), s["dp"], s["nodes"], s["workers"])
    ra = ResultStreamingArgs(job_id=job, dp_group_id=dp, node_id=nd)
    chk = Path(restore) if restore else None
    if s["kind"] == "hf":
        from datasets.distributed import split_dataset_by_node
        from mixtera.hf import MixteraHFDataset

        inner = ds = MixteraHFDataset(client, query, ea, ra, checkpoint_path=chk)
        for t in s["transforms"]:
            if t == "split":
                ds = split_dataset_by_node(ds, rank=dp, world_size=s["dp"])
            elif t == "map":
                ds = ds.map(lambda x: x)
            elif t == "filter":
                ds = ds.filter(lambda x: True)
            elif t == "format":
                ds = ds.with_format("torch")
    else:
        from mixtera.torch import MixteraTorchDataset

        inner = ds = MixteraTorchDataset(client, query, ea, ra, checkpoint_path=chk)
    counts = mp.Array("q", max(1, s["workers"]), lock=False)
    kw = {"prefetch_factor": s["prefetch"]} if s["workers"] else {}
    loader = torch.utils.data.DataLoader(ds, batch_size=s["batch"], num_workers=s["workers"], collate_fn=Count(counts), **kw)

    def checked(dataloader):
        for batch in dataloader:
            yield batch

    h = s["holder"]
    it = checked(loader) if h == "generator" else iter(loader)
    if h == "object":
        held = Holder()
        held.step, held.parts = 0, {"valid": None, "train": [loader]}
    elif h == "attribute":
        held = Holder()
        held.inner = Holder()
        held.inner.train_set = ds if s["kind"] == "torch" else loader
        held.inner.outer = held
    else:
        held = {"loader": loader, "dataset": ds, "generator": it}[h]
    return inner, loader, it, held, counts


class Count:
    def __init__(self, counts):
        self.counts = counts

    def __call__(self, batch):
        import torch

        info = torch.utils.data.get_worker_info()
        self.counts[0 if info is None else info.id] += 1
        return len(batch)


def rank(where, s, dp, nd, barrier, ends):
    import torch
    from mixtera.utils.checkpoint import handle_mixtera_checkpoint
    from mixtera.utils.feedback import handle_mixtera_feedback
    from vh import srv

    srv.fast_polling()
    rng = random.Random(f"{s['seed']}-{dp}-{nd}")
    random.seed()
    torch.set_num_threads(1)
    obs = Observer()
    client = loaders.connect(where)
    inner, loader, it, held, counts = build(s, client, obs, dp, nd, s["job"], s.get("restore"))
    loader2 = None
    jobs = [(s["job"], client, held, it)]
    if s["second"]:  # validation data: another job in the same process
        other = loaders.connect(where)
        s2 = dict(s, mixture=s["second_mixture"], dp=1, nodes=1, workers=0)
        _, loader2, it2, held2, _ = build(s2, other, obs, 0, 0, s["job"] + "valid")
        jobs.append((s["job"] + "valid", other, held2, it2))
    tp_rank, dp_rank = nd % s["tp"], dp
    last_stage = nd // s["tp"] == (s["nodes"] // s["tp"]) - 1
    events, taken, ended = [], 0, [False] * len(jobs)
    for k in range(s["steps"]):
        which = rng.randrange(len(jobs)) if len(jobs) > 1 else 0
        job, cl, hold, stream = jobs[which]
        if not ended[which]:
            if next(stream, None) is None:
                ended[which] = True
            elif which == 0:
                taken += 1
        if rng.random() < 0.3:
            _sleep(rng.random() * s["jitter"])
        ids = obs.ids[id(cl)]
        ev = None
        started = ids[0] >= 0
        if started:
            if ended[which] and s["holder"] == "generator":
                hold = (loader, loader2)[which]
            lo, n = ids[1], len(obs.calls)
            rep = s["reports"][k] if last_stage else ((None, None), (None, None))
            handle_mixtera_feedback(hold, s["first_step"] + k, values(rep[0]), values(rep[1]), dp_rank, tp_rank)
            ev = ("feedback", job, s["first_step"] + k, rep, lo, ids[0], obs.calls[n:], s["workers"] == 0 or which == 1, ended[which])
            events.append(ev)
        if rng.random() < 0.15:
            n = len(obs.calls)
            err = None
            what = rng.choice(["plain", "plain", "negative", "directory"])
            scratch = Path(s["scratch"]) / f"foreign-{dp}-{nd}-{k}"
            scratch.mkdir()
            try:
                if what == "plain":
                    foreign = foreigner(rng)
                    handle_mixtera_feedback(foreign, k, [1.0], [1], 0, 0)
                    handle_mixtera_checkpoint(foreign, scratch, dp, nd, True)
                elif what == "negative":
                    handle_mixtera_feedback(hold, -1 - k, [1.0], [1], dp_rank, tp_rank)
                else:
                    handle_mixtera_checkpoint(hold, scratch / "missing", dp, nd, True)
            except Exception as e:  # pylint: disable=broad-except
                err = f"{type(e).__name__}: {e}"
            events.append((what, err, obs.calls[n:], [p.name for p in scratch.iterdir()]))
        if k in s["rounds"]:
            quiet = ended[0] or loaders.quiesce(s, counts, taken)
            if not quiet:
                ends.value = 1
            barrier.wait(60)
            if not ends.value:
                if rng.random() < 0.7:
                    _sleep(rng.random() * s["jitter"])
                n = len(obs.calls)
                status = inner.worker_status if s["kind"] == "torch" else None
                path = Path(s["paths"][s["rounds"].index(k)])
                handle_mixtera_checkpoint(held if rng.random() < 0.8 and not (ended[0] and s["holder"] == "generator") else loader, path if rng.random() < 0.5 else str(path), dp, nd, s["wait"])
                disk = tree(s["home"]) if s["wait"] else None
                done = [client.checkpoint_completed(s["job"], c[-1], s["wait"]) for c in obs.calls[n:] if c and c[-1]]
                barrier.wait(60)
                events.append(("checkpoint", s["rounds"].index(k), obs.calls[n:], (path / "mixtera.id").read_text("utf-8") if (path / "mixtera.id").exists() else None, status, disk, done))
            barrier.wait(60)
            ends.value = 0
            barrier.wait(60)
    out = dict(events=events, calls=obs.calls, taken=taken, designated=dp_rank == 0 and tp_rank == 0, last_stage=last_stage)
    barrier.wait(60)  # a job ends for all
    return out


def tree(home):
    root = Path(home) / "checkpoints"
    return {str(p.relative_to(root)): p.stat().st_size for p in sorted(root.rglob("*")) if p.is_file()}


def foreigner(rng):
    import datasets
    import torch

    k = rng.randrange(6)
    if k == 0:
        return torch.utils.data.DataLoader(torch.utils.data.TensorDataset(torch.arange(4)), batch_size=2)
    if k == 1:
        return [1, 2, 3]
    if k == 2:
        return None
    if k == 3:
        return datasets.IterableDataset.from_generator(lambda: iter([{"a": 1}]))
    if k == 4:
        h = Holder()
        h.x, h.me = {"a": [1, None]}, h
        return h
    return (x for x in range(3))
