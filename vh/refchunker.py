"""Reference index builder: the oracle for P02, and a stand-in where the native source does not build."""


def row_key(row: dict, props: list[str]) -> tuple:
    """Canonical domain of a row: properties with a value, with the set of their values."""
    out = []
    for p in props:
        v = row[p]
        if v is None:
            continue
        vals = [x for x in v if x is not None] if isinstance(v, (list, tuple)) else [v]
        out.append((p, tuple(sorted(vals))))
    return tuple(sorted(out))


RESERVED = {"dataset_id", "file_id", "group_id", "interval_start", "interval_end"}


def reference_index(table) -> dict:
    props = [c for c in table.column_names if c not in RESERVED]
    idx: dict = {}
    for row in table.to_pylist():
        files = idx.setdefault(row_key(row, props), {}).setdefault(row["dataset_id"], {})
        files.setdefault(row["file_id"], []).append((row["interval_start"], row["interval_end"]))
    for ds in idx.values():
        for files in ds.values():
            for iv in files.values():
                iv.sort()
    return idx


def create_chunker_index_cpp(table, num_threads=4):
    from mixtera.core.query.mixture import MixtureKey

    return {MixtureKey({p: list(v) for p, v in k}): v for k, v in reference_index(table).items()}
