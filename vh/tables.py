"""Random tables of matching intervals in every physical encoding the index builder accepts, and in shapes it does not."""
import random

HOSTILE = ["", ",", ";", ":", "a:b,c;d", "a", "b", "ab", "c", "ä€😀", "new\nline", "tab\t", "x" * 300, "\x00", "a\x00b", " lead", "None", "1"]
INT_TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


class Col:
    def __init__(self, name, multi, values, nullable):
        self.name, self.multi, self.values, self.nullable = name, multi, values, nullable


def random_logical(rng: random.Random, max_rows: int) -> tuple[list[Col], list[dict]]:
    """Columns and rows, independent of any encoding."""
    cols = []
    for name in rng.sample(["language", "topic", "a b", "x", "prop_with_long_name", "übung"], rng.choice([0, 1, 1, 2, 2, 3])):
        cols.append(Col(name, rng.random() < 0.4, rng.sample(HOSTILE, rng.choice([1, 2, 4, 8])), rng.random() < 0.5))
    n = rng.choice([0, 1, 2, 3, 7, 20, 60, max_rows])
    n = min(n, max_rows)
    nds, nf = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 5])
    small = rng.random() < 0.3
    rows = []
    pos: dict = {}
    prev: dict = {}
    for _ in range(n):
        ds = rng.randrange(1, nds + 1)
        f = rng.randrange(nf) * nds + ds
        start = pos.get(f, 0) + rng.choice([0, 0, 1, 3])
        end = start + rng.choice([1, 1, 2, 5, 0 if rng.random() < 0.1 else 1])
        if small:
            start, end = start % 120, start % 120 + (end - start) % 8
        pos[f] = end
        row = dict(dataset_id=ds, file_id=f, interval_start=start, interval_end=end)
        for c in cols:
            if c.name in prev and rng.random() < 0.5:
                v = prev[c.name]
            elif c.nullable and rng.random() < 0.25:
                v = None
            elif c.multi:
                v = rng.sample(c.values, rng.randrange(0, min(3, len(c.values)) + 1))
                if rng.random() < 0.1 and v:
                    v = v + [None]
            else:
                v = rng.choice(c.values)
            prev[c.name] = v
            if isinstance(v, list) and rng.random() < 0.4:
                v = rng.sample(v, len(v))
            row[c.name] = v
        rows.append(row)
    mode = rng.randrange(3)
    if mode == 1:
        rng.shuffle(rows)
    elif mode == 2:
        rows.sort(key=lambda r: (r["dataset_id"], r["file_id"], r["interval_start"]))
    return cols, rows


def _dict_array(pa, rng, values, value_type, index_type, shuffle=True):
    """A dictionary array whose dictionary has unused entries and any order."""
    entries = sorted({v for v in values if v is not None} | {"unused"})
    if shuffle:
        rng.shuffle(entries)
    at = {v: i for i, v in enumerate(entries)}
    idx = pa.array([None if v is None else at[v] for v in values], index_type)
    return pa.DictionaryArray.from_arrays(idx, pa.array(entries, value_type))


def _list_array(pa, rng, values, inner, large):
    offs, flat = [], []
    pad = rng.random() < 0.5
    if pad:
        flat += ["never", None]
    mask = []
    for v in values:
        offs.append(len(flat))
        mask.append(v is None)
        flat += v or []
    offs.append(len(flat))
    child = inner(flat)
    if pad:
        child = pa.concat_arrays([child, inner(["tail"])]) if not pa.types.is_dictionary(child.type) else child
    cls, ot = (pa.LargeListArray, pa.int64()) if large else (pa.ListArray, pa.int32())
    return cls.from_arrays(pa.array(offs, ot), child, mask=pa.array(mask, pa.bool_()) if any(mask) else None)


def encode_column(pa, rng: random.Random, col: Col, values: list, enc: str):
    """enc is chosen once per table, as all chunks of a column share a type."""
    kind, itype = enc.split("/")
    it = getattr(pa, itype)()

    def plain(v):
        return pa.array(v, pa.large_string() if kind.startswith("L") else pa.string())

    def dic(v):
        return _dict_array(pa, rng, v, pa.large_string() if kind.startswith("L") else pa.string(), it)

    inner = dic if kind.endswith("D") else plain
    if not col.multi:
        return inner(values)
    return _list_array(pa, rng, values, inner, "l" in kind)


def random_encoding(rng: random.Random, col: Col) -> str:
    k = rng.choice(["S", "L"]) + (rng.choice(["", "l"]) if col.multi else "") + rng.choice(["P", "D"])
    return k + "/" + rng.choice(INT_TYPES)


def split_points(rng: random.Random, n: int) -> list[int]:
    mode = rng.randrange(4)
    if mode == 0 or n == 0:
        return [0, n]
    if mode == 1:
        return list(range(n + 1))
    k = rng.randrange(1, min(n, 12) + 1)
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(k))
    return [0] + cuts + [n]  # may contain empty batches


def encode(pa, rng: random.Random, cols: list[Col], rows: list[dict]):
    """One physical table holding the rows; returns (table, description)."""
    order = ["dataset_id", "file_id", "interval_start", "interval_end"] + [c.name for c in cols]
    if rng.random() < 0.5:
        order.append("group_id")
    rng.shuffle(order)
    hi = max([r["interval_end"] for r in rows] + [r["file_id"] for r in rows] + [0])
    fits = [t for t in INT_TYPES if hi < {"int8": 127, "uint8": 255, "int16": 32767, "uint16": 65535}.get(t, 2 ** 31)]
    itypes = {c: rng.choice(fits) for c in ("dataset_id", "file_id", "interval_start", "interval_end")}
    encs = {c.name: random_encoding(rng, c) for c in cols}
    by_name = {c.name: c for c in cols}
    own_cuts = rng.random() < 0.3
    shared = split_points(rng, len(rows))
    arrays, fields = [], []
    for name in order:
        cuts = split_points(rng, len(rows)) if own_cuts else shared
        pieces = []
        for a, b in zip(cuts, cuts[1:]):
            lo, up = a, b
            sliced = rng.random() < 0.3
            if sliced:  # a slice of a longer array: non-zero offsets
                lo, up = max(0, a - 2), min(len(rows), b + 1)
            part = rows[lo:up]
            if name == "group_id":
                arr = pa.array(range(lo, up), pa.int64())
            elif name in itypes:
                arr = pa.array([r[name] for r in part], getattr(pa, itypes[name])())
            else:
                arr = encode_column(pa, rng, by_name[name], [r[name] for r in part], encs[name])
            pieces.append(arr.slice(a - lo, b - a) if sliced else arr)
        typ = pieces[0].type
        arrays.append(pa.chunked_array(pieces, typ))
        fields.append(pa.field(name, typ))
    t = pa.Table.from_arrays(arrays, schema=pa.schema(fields))
    return t, dict(order=order, encodings=encs, ids=itypes, batches=[len(p) for p in (t.column(0).chunks if t.num_columns else [])][:20],
                   separate_chunking=own_cuts)


def expected(cols: list[Col], rows: list[dict]) -> dict:
    from vh.refchunker import row_key

    idx: dict = {}
    props = [c.name for c in cols]
    for r in rows:
        files = idx.setdefault(row_key(r, props), {}).setdefault(r["dataset_id"], {})
        files.setdefault(r["file_id"], []).append((r["interval_start"], r["interval_end"]))
    for ds in idx.values():
        for files in ds.values():
            for iv in files.values():
                iv.sort()
    return idx


def plain_index(index) -> dict:
    """The builder's result without repository types."""
    out: dict = {}
    for k, datasets in index.items():
        kt = tuple(sorted((p, tuple(sorted(v))) for p, v in k.properties.items()))
        if kt in out:
            raise AssertionError(f"domain occurs twice: {kt}")
        out[kt] = {int(d): {int(f): [tuple(map(int, iv)) for iv in ivs] for f, ivs in files.items()} for d, files in datasets.items()}
    return out


def difference(got: dict, want: dict) -> str | None:
    if got == want:
        return None
    def flat(ix):
        return {(k, d, f): ivs for k, ds in ix.items() for d, fs in ds.items() for f, ivs in fs.items()}
    g, w = flat(got), flat(want)
    missing, extra = sorted(set(w) - set(g)), sorted(set(g) - set(w))
    diff = [k for k in w if k in g and g[k] != w[k]]
    return (f"missing entries {missing[:3]}, unexpected entries {extra[:3]}, "
            f"different intervals {[(k, g[k][:6], w[k][:6]) for k in diff[:2]]}, empty domains {[k for k in got if not any(got[k].values())][:3]}")


def hostile_shape(pa, rng: random.Random):
    """(description, object) of a table the builder cannot accept; it has at least one row."""
    n = rng.choice([1, 3, 10])
    base = dict(dataset_id=pa.array([1] * n), file_id=pa.array(range(n)), interval_start=pa.array(range(n)),
                interval_end=pa.array([i + 1 for i in range(n)]), p=pa.array(["a"] * n))
    kinds = ["missing", "int-prop", "float-prop", "bool-prop", "binary-prop", "list-int", "list-list", "struct-prop", "dict-int",
             "list-dict-int", "float-id", "string-id", "reversed", "none", "int", "dict", "recordbatch", "no-columns", "list",
             "timestamp-prop", "fixed-list", "string-view", "list-view", "decimal-id", "date-prop"]
    kind = rng.choice(kinds)
    if kind == "missing":
        del base[rng.choice(["dataset_id", "file_id", "interval_start", "interval_end"])]
    elif kind == "int-prop":
        base["p"] = pa.array(range(n))
    elif kind == "float-prop":
        base["p"] = pa.array([0.5] * n)
    elif kind == "bool-prop":
        base["p"] = pa.array([True] * n)
    elif kind == "binary-prop":
        base["p"] = pa.array([b"\xff\xfe"] * n)
    elif kind == "list-int":
        base["p"] = pa.array([[1, 2]] * n)
    elif kind == "list-list":
        base["p"] = pa.array([[["a"]]] * n)
    elif kind == "struct-prop":
        base["p"] = pa.array([{"a": "b"}] * n)
    elif kind == "dict-int":
        base["p"] = pa.array([5] * n).dictionary_encode()
    elif kind == "list-dict-int":
        base["p"] = pa.ListArray.from_arrays(pa.array(range(n + 1), pa.int32()), pa.array([5] * n).dictionary_encode())
    elif kind == "float-id":
        base[rng.choice(["dataset_id", "file_id", "interval_start"])] = pa.array([1.0] * n)
    elif kind == "string-id":
        base["file_id"] = pa.array(["1"] * n)
    elif kind == "reversed":
        base["interval_end"] = pa.array([i - 1 if i == n - 1 else i + 1 for i in range(n)])
    elif kind == "timestamp-prop":
        base["p"] = pa.array([0] * n, pa.timestamp("s"))
    elif kind == "date-prop":
        base["p"] = pa.array([0] * n, pa.date32())
    elif kind == "decimal-id":
        base["file_id"] = pa.array([1] * n).cast(pa.decimal128(20, 0))
    elif kind == "fixed-list":
        base["p"] = pa.array([["a", "b"]] * n, pa.list_(pa.string(), 2))
    elif kind == "string-view":
        base["p"] = pa.array(["a"] * n, pa.string_view())
    elif kind == "list-view":
        base["p"] = pa.array([["a"]] * n, pa.list_view(pa.string()))
    elif kind in ("none", "int", "dict", "list"):
        return kind, {"none": None, "int": 5, "dict": base, "list": [base]}[kind]
    elif kind == "no-columns":
        return kind, pa.table({"p": ["a"]})
    t = pa.table(base)
    if kind == "recordbatch":
        return kind, t.to_batches()[0]
    if rng.random() < 0.5 and t.num_rows > 1:
        t = pa.concat_tables([t.slice(0, 1), t.slice(1)])
    return kind, t
