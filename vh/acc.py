"""Access to observable parts of chunks and jobs. Names used by the repository's own tests come first;
if a refactoring renamed an attribute, it is found by the shape of its content."""


def _is_key(o) -> bool:
    return type(o).__name__ == "MixtureKey"


def _find(obj, names, pred):
    for n in names:
        if hasattr(obj, n):
            return getattr(obj, n)
    for n, v in vars(obj).items():
        if pred(n, v):
            return v
    raise LookupError(f"no attribute like {names} on {type(obj)}: {sorted(vars(obj))}")


def result_index(chunk) -> dict:
    """MixtureKey -> dataset id -> file id -> [(start, end)]"""
    return _find(chunk, ["_result_index"],
                 lambda n, v: isinstance(v, dict) and v and all(_is_key(k) for k in v) and all(isinstance(x, dict) for x in v.values()))


def key_ids(chunk) -> dict:
    return _find(chunk, ["_key_id_map"], lambda n, v: "id" in n and isinstance(v, dict) and v and all(_is_key(k) for k in v)
                 and all(isinstance(x, int) for x in v.values()))


def mixture_rows(chunk):
    return _find(chunk, ["_mixture"], lambda n, v: "id" not in n and isinstance(v, dict) and v and all(_is_key(k) for k in v)
                 and all(isinstance(x, int) for x in v.values()))


def file_paths(chunk) -> dict:
    return _find(chunk, ["_file_path_dict"], lambda n, v: "path" in n and isinstance(v, dict))


def chunk_rows(chunk) -> dict:
    """canonical domain -> list of (file path, row index) in the chunk, in order"""
    from vh.gen import key_tuple

    out: dict = {}
    paths = file_paths(chunk)
    for key, datasets in result_index(chunk).items():
        rows = out.setdefault(key_tuple(key), [])
        for files in datasets.values():
            for fid, ranges in files.items():
                for a, b in ranges:
                    rows += [(paths[fid], i) for i in range(a, b)]
    return out


def id_to_domain(chunk) -> dict:
    from vh.gen import key_tuple

    return {i: key_tuple(k) for k, i in key_ids(chunk).items()}


def chunk_size(chunk) -> int:
    return sum(len(v) for v in chunk_rows(chunk).values())


def chunks_of(client, job, dp=0, node=0, worker=0):
    return client._stream_result_chunks(job, dp, node, worker)


def stream(client, job, dp=0, node=0, worker=0, **kw):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    return client.stream_results(ResultStreamingArgs(job_id=job, dp_group_id=dp, node_id=node, worker_id=worker, **kw))


def exec_args(mixture, dp=1, nodes=1, workers=1):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs

    return QueryExecutionArgs(mixture=mixture, dp_groups=dp, nodes_per_group=nodes, num_workers=workers)
