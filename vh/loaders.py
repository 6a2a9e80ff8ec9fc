"""Nodes of a training job: processes with data loaders on the dataset wrappers (used by P22)."""
import importlib
import multiprocessing as mp
import os
import pickle
import random
import signal
import time
import traceback
from pathlib import Path

_sleep, _clock = time.sleep, time.monotonic


class Tag:
    """Collates in the worker: says who it is and counts its batches."""

    def __init__(self, counts):
        self.counts = counts

    def __call__(self, batch):
        import torch

        info = torch.utils.data.get_worker_info()
        wid = 0 if info is None else info.id
        self.counts[wid] += 1
        return wid, [sample(x) for x in batch]


def sample(x):
    def plain(v):
        return v.tolist() if hasattr(v, "tolist") else [plain(y) for y in v] if isinstance(v, (list, tuple)) else v

    if isinstance(x, dict):  # HF
        what = x["text"] if "text" in x else tuple(plain(x["input_ids"]))
        key = plain(x["key_id"])
        return (tuple(key) if isinstance(key, list) else key, what)
    if isinstance(x, tuple):
        return (x[0], tuple(x[1]) if isinstance(x[1], list) else x[1])
    return (None, tuple(x) if isinstance(x, list) else x)


def connect(where):
    from mixtera.core.client import MixteraClient

    return MixteraClient.from_directory(where) if isinstance(where, (str, Path)) else MixteraClient.from_remote("127.0.0.1", where[0])


def mixture_of(spec):
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture
    from vh import train

    what, size, parts = spec
    return {"arbitrary": ArbitraryMixture, "inferring": InferringMixture}[what](chunk_size=size) if parts is None else train.static(parts, size, False)


def reference(where, job, mixture, opts):
    """All chunks of the same job as plain streaming delivers them."""
    from mixtera.core.client.mixtera_client import ResultStreamingArgs
    from vh import acc, gen

    client = connect(where)
    client.execute_query(gen.build_query(job, []), acc.exec_args(mixture_of(mixture)))
    client.wait_for_execution(job)
    chunks = []
    for idx, key, what in client.stream_results(ResultStreamingArgs(job_id=job, **opts)):
        if idx == 0:
            chunks.append([])
        chunks[-1].append((key, tuple(what) if isinstance(what, list) else what))
    return chunks


def node(where, s, dp, nd, *_):
    """One training node; s: the specification of the job."""
    import torch
    from mixtera.core.client.mixtera_client import ResultStreamingArgs
    from vh import acc, gen, srv

    srv.fast_polling()
    random.seed()
    torch.set_num_threads(1)
    client = connect(where)
    query = gen.build_query(s["job"], [])
    ea = acc.exec_args(mixture_of(s["mixture"]), s["dp"], s["nodes"], s["workers"])
    ra = ResultStreamingArgs(job_id=s["job"], dp_group_id=dp, node_id=nd, **s["opts"])
    chkpnt = Path(s["restore"]) if s.get("restore") else None
    if s["kind"] == "hf":
        from datasets.distributed import split_dataset_by_node
        from mixtera.hf import MixteraHFDataset

        ds = MixteraHFDataset(client, query, ea, ra, checkpoint_path=chkpnt)
        if s["format"]:
            ds = ds.with_format("torch")
        ds = split_dataset_by_node(ds, rank=dp, world_size=s["dp"])
    else:
        from mixtera.torch import MixteraTorchDataset

        ds = MixteraTorchDataset(client, query, ea, ra, checkpoint_path=chkpnt, return_key_id=s["keys"])
    counts = mp.Array("q", max(1, s["workers"]), lock=False)
    kw = {"prefetch_factor": s["prefetch"]} if s["workers"] else {}
    if s["workers"] and s.get("perturb"):
        kw["worker_init_fn"] = delayed
    loader = torch.utils.data.DataLoader(ds, batch_size=s["batch"], num_workers=s["workers"], collate_fn=Tag(counts), **kw)
    out = dict(batches=[], status=None, produced=None, quiet=True, refused=None, checkpoint=False)
    it = iter(loader)
    ended = take(it, out["batches"], s["take"], s["limit"])
    if s.get("checkpoint"):
        from mixtera.utils.checkpoint import handle_mixtera_checkpoint
        from mixtera.utils.dataset_utils import _recover_mixtera_dataset

        out["quiet"] = ended or quiesce(s, counts, len(out["batches"]))
        inner = _recover_mixtera_dataset(loader)
        out["status"], out["produced"] = inner.worker_status, [c * s["batch"] for c in counts] if s["workers"] else [len(out["batches"]) * s["batch"]]
        try:
            handle_mixtera_checkpoint(loader if s["by_loader"] else inner, s["checkpoint"], dp, nd, s["wait_for_disk"])
        except NotImplementedError as e:
            out["refused"] = str(e)
        out["checkpoint"] = True
    if not ended:
        take(it, out["batches"], None, s["limit"])
    del it, loader
    return out


def delayed(_worker):
    from vh import perturb

    perturb.enable(["mixtera.core.query.query_result", "mixtera.core.query.chunk_distributor"], prob=0.05, longest=0.01, budget=1.0)


def take(it, batches, n, limit):
    while n is None or len(batches) < n:
        try:
            batches.append(next(it))
        except StopIteration:
            return True
        if len(batches) > limit:
            raise RuntimeError("harness: the stream does not end")
    return False


def quiesce(s, counts, taken):
    """Waits until the workers have produced all batches they were asked for."""
    if not s["workers"]:
        return True
    asked = s["prefetch"] * s["workers"] + taken
    want = [len(range(j, asked, s["workers"])) for j in range(s["workers"])]
    t0 = _clock()
    while list(counts) != want:
        if any(c > w for c, w in zip(counts, want)) or _clock() - t0 > 2:
            return False
        _sleep(0.005)
    return True


def run_nodes(where, s, scratch, body="vh.loaders:node"):
    """All nodes of a job at once, each in a process of its own."""
    mod, fn = body.split(":")
    run = getattr(importlib.import_module(mod), fn)
    pids = {}
    barrier, ends = mp.Barrier(s["dp"] * s["nodes"]), mp.Value("b", 0)
    for dp in range(s["dp"]):
        for nd in range(s["nodes"]):
            path = Path(scratch) / f"node-{dp}-{nd}-{os.urandom(3).hex()}"
            pid = os.fork()
            if pid == 0:
                try:
                    res = ("ok", run(where, s, dp, nd, barrier, ends))
                except BaseException as e:  # pylint: disable=broad-except
                    from vh.ctx import blame

                    res = ("exc", type(e).__name__, str(e)[:1500], "".join(traceback.format_exception(e))[-5000:], blame(e))
                with open(str(path) + ".tmp", "wb") as f:
                    pickle.dump(res, f)
                os.rename(str(path) + ".tmp", path)
                os._exit(0)
            pids[pid] = (dp, nd, path)
    out, deadline = {}, None
    while pids and (deadline is None or _clock() < deadline):
        for pid in list(pids):
            if os.waitpid(pid, os.WNOHANG)[0]:
                dp, nd, path = pids.pop(pid)
                out[(dp, nd)] = pickle.loads(path.read_bytes()) if path.exists() else ("died",)
                if out[(dp, nd)][0] != "ok" and deadline is None:
                    deadline = _clock() + 3  # the others may wait for this one
        _sleep(0.005)
    for pid in pids:  # the group of this process ends with it
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return out
