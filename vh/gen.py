"""Random worlds: datasets on disk with known contents, registered through the public API."""
import bz2
import gzip
import io
import itertools
import json
import lzma
import random
import shutil
import subprocess
import sys
import tarfile
from dataclasses import dataclass, field
from pathlib import Path

_counter = itertools.count()


@dataclass
class PropSpec:
    name: str
    dtype: str = "STRING"  # STRING or ENUM
    multiple: bool = False
    nullable: bool = True
    values: tuple = ("a", "b", "c")


@dataclass
class Sample:
    ds: str
    file: str
    idx: int
    text: str
    meta: dict

    def ident(self):
        return (self.ds, self.file, self.idx)


@dataclass
class DatasetSpec:
    name: str
    fmt: str
    props: list
    path: Path
    parser_id: str = ""
    samples: list = field(default_factory=list)  # in file order
    single_file: bool = False


def make_parser(props: list[PropSpec], name: str | None = None):
    """A metadata parser class for the schema; registered in this module so that pools can pickle it."""
    from mixtera.core.datacollection.index.parser import MetadataParser
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty

    cname = name or f"GenParser{next(_counter)}"
    descr = [(p.name, p.dtype, p.multiple, p.nullable, set(p.values) if p.dtype == "ENUM" else None) for p in props]

    def get_properties(cls):
        return [MetadataProperty(name=n, dtype=d, multiple=m, nullable=nl, enum_options=o) for n, d, m, nl, o in descr]

    def parse(self, line_number, payload, **kwargs):
        meta = payload["meta"] if "meta" in payload else payload[".json"]["meta"]
        if isinstance(meta, str):
            meta = json.loads(meta)
        self.add_metadata(sample_id=line_number, **meta)

    cls = type(cname, (MetadataParser,), {"get_properties": classmethod(get_properties), "parse": parse,
                                          "__module__": __name__, "__qualname__": cname})
    setattr(sys.modules[__name__], cname, cls)
    return cls


# -- parsing functions (module level, so they pickle by reference; some cases use closures instead) ----------
def parse_jsonl(line):
    return json.loads(line)["text"]


def parse_parquet(record):
    return record["text"]


def parse_web(sample):
    return sample[".txt"]


PARSERS = {"jsonl": parse_jsonl, "parquet": parse_parquet, "web": parse_web}


def dataset_type(fmt: str):
    from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

    return {"jsonl": JSONLDataset, "parquet": ParquetDataset, "web": WebDataset}[fmt]


def random_text(rng: random.Random, hostile: bool = False) -> str:
    if not hostile:
        return "".join(rng.choice("abcdefgh ") for _ in range(rng.randrange(0, 12)))
    kind = rng.randrange(8)
    if kind == 0:
        return ""
    if kind == 1:
        return "".join(chr(rng.choice([0x00E9, 0x4E2D, 0x1F600, 0x2028, 0x85, 0x0B, 0x1F, 0xFEFF])) for _ in range(5))
    if kind == 2:
        return "line\nbreak\r\nand\ttab \\ \"quoted\" "
    if kind == 3:
        return "x" * rng.choice([1000, 9000, 70000])
    if kind == 4:
        return "END_OF_STREAM" if rng.random() < 0.5 else "None"
    if kind == 5:
        return '{"text": "nested", "meta": {}}'
    return random_text(rng)


def random_meta(rng: random.Random, props: list[PropSpec], sticky: dict) -> dict:
    """Metadata in runs: the previous sample's values are often kept, so that intervals form."""
    meta = {}
    for p in props:
        if p.name in sticky and rng.random() < 0.7:
            v = sticky[p.name]
        elif p.nullable and rng.random() < 0.15:
            v = None
        elif p.multiple:
            k = rng.choice([1, 1, 2, 3])
            v = rng.sample(list(p.values), min(k, len(p.values)))
        else:
            v = rng.choice(p.values)
        sticky[p.name] = v
        if v is not None:
            meta[p.name] = v
    return meta


COMPRESS = {
    "jsonl": lambda b: b,
    "jsonl.gz": gzip.compress,
    "jsonl.bz2": bz2.compress,
    "jsonl.xz": lzma.compress,
}
if shutil.which("zstd"):
    COMPRESS["jsonl.zst"] = lambda b: subprocess.run(["zstd", "-q", "-c"], input=b, capture_output=True, check=True).stdout


def write_jsonl(path: Path, samples: list[Sample], ext: str = "jsonl", ascii_only: bool = True, trailing_newline: bool = True) -> None:
    lines = [json.dumps({"text": s.text, "meta": s.meta}, ensure_ascii=ascii_only) for s in samples]
    data = "\n".join(lines) + ("\n" if lines and trailing_newline else "")
    path.write_bytes(COMPRESS[ext](data.encode("utf-8")))


def write_parquet(path: Path, samples: list[Sample], row_group: int = 7) -> None:
    import pyarrow as pa
    import pyarrow.parquet as pq

    t = pa.table({"text": pa.array([s.text for s in samples], pa.string()),
                  "meta": pa.array([json.dumps(s.meta) for s in samples], pa.string())})
    pq.write_table(t, path, row_group_size=row_group)


def write_web(path: Path, samples: list[Sample]) -> None:
    with tarfile.open(path, "w") as tar:
        for i, s in enumerate(samples):
            for ext, data in (("json", json.dumps({"meta": s.meta})), ("txt", s.text)):
                b = data.encode("utf-8")
                info = tarfile.TarInfo(f"{i:06d}.{ext}")
                info.size = len(b)
                tar.addfile(info, io.BytesIO(b))


EXT = {"jsonl": "jsonl", "parquet": "parquet", "web": "tar"}


class World:
    """A collection directory with registered datasets and the list of samples that must be in it."""

    def __init__(self, root: Path, rng: random.Random):
        self.root = root
        self.rng = rng
        self.home = root / "mixtera"
        self.home.mkdir(parents=True, exist_ok=True)
        self.datasets: list[DatasetSpec] = []
        self.client = None
        self.parsers: dict[str, type] = {}

    def connect(self):
        from mixtera.core.client import MixteraClient

        self.client = MixteraClient.from_directory(self.home)
        for pid, cls in self.parsers.items():
            self.client.register_metadata_parser(pid, cls)
        return self.client

    def close(self):
        """Gives up the database connection, so that another process may open the directory."""
        if self.client is not None:
            mdc = getattr(self.client, "_mdc", None)
            con = getattr(mdc, "_connection", None)
            if con is not None:
                con.close()
            self.client = None

    def make_dataset(self, name: str, props: list[PropSpec], sizes: list[int], fmt: str = "jsonl", ext: str | None = None,
                     hostile: bool = False, uniform: dict | None = None, row_group: int = 7, single_file: bool = False,
                     metas: list[list[dict]] | None = None, ascii_only: bool = True, trailing_newline: bool = True) -> DatasetSpec:
        rng = self.rng
        path = self.root / f"data_{name}"
        path.mkdir()
        ds = DatasetSpec(name, fmt, props, path, single_file=single_file)
        for fi, n in enumerate(sizes):
            e = ext or EXT[fmt]
            fpath = path / f"part{fi:03d}.{e}"
            sticky: dict = {}
            samples = []
            for i in range(n):
                meta = metas[fi][i] if metas is not None else (dict(uniform) if uniform is not None else random_meta(rng, props, sticky))
                text = f"{name}/{fi}/{i}|{random_text(rng, hostile)}"
                samples.append(Sample(name, fpath.name, i, text, meta))
            if fmt == "jsonl":
                write_jsonl(fpath, samples, e, ascii_only, trailing_newline)
            elif fmt == "parquet":
                write_parquet(fpath, samples, row_group)
            else:
                write_web(fpath, samples)
            ds.samples += samples
        if single_file:
            ds.path = path / f"part000.{ext or EXT[fmt]}"
        return ds

    def register(self, ds: DatasetSpec, parsing_func=None) -> bool:
        pid = ds.parser_id or f"P_{ds.name}"
        ds.parser_id = pid
        if pid not in self.parsers:
            cls = make_parser(ds.props)
            self.parsers[pid] = cls
            self.client.register_metadata_parser(pid, cls)
        ok = self.client.register_dataset(ds.name, str(ds.path), dataset_type(ds.fmt), parsing_func or PARSERS[ds.fmt], pid)
        if ok:
            self.datasets.append(ds)
        return ok

    def samples(self) -> list[Sample]:
        return [s for d in self.datasets for s in d.samples]

    def columns(self) -> dict[str, PropSpec]:
        out = {}
        for d in self.datasets:
            for p in d.props:
                out.setdefault(p.name, p)
        return out


def random_props(rng: random.Random, n: int | None = None, multi: bool = True) -> list[PropSpec]:
    names = ["language", "topic", "license", "year", "_split", "Source"]
    rng.shuffle(names)
    pools = {"language": ("en", "de", "fr", "it", "Go"), "topic": ("law", "med", "sci", "art news"), "_split": ("train", "Train", "eval"),
             "license": ("MIT", "None", "Apache 2"), "year": ("1999", "2005", "2024-01-01T00:00:00", "2025"), "Source": ("a", "b/c", "b")}
    out = []
    for name in names[: n or rng.choice([1, 1, 2, 2, 3, 5])]:
        vals = pools[name][: rng.randrange(2, len(pools[name]) + 1)]
        out.append(PropSpec(name, rng.choice(["STRING", "STRING", "ENUM"]), multi and rng.random() < 0.3,
                            rng.random() < 0.5, tuple(vals)))
    return out


def domain_of(meta: dict) -> tuple:
    """Canonical domain of a sample."""
    out = []
    for k, v in meta.items():
        if v is None:
            continue
        out.append((k, tuple(sorted(v)) if isinstance(v, list) else (v,)))
    return tuple(sorted(out))


def key_tuple(key) -> tuple:
    """Canonical form of a MixtureKey."""
    return tuple(sorted((k, tuple(sorted(v))) for k, v in key.properties.items()))


# -- queries -------------------------------------------------------------------------------------------------
OPS = ["==", "!=", ">", "<", ">=", "<="]


def random_condition(rng: random.Random, cols: dict[str, PropSpec]):
    name = rng.choice(sorted(cols))
    p = cols[name]
    pool = list(p.values)
    r = rng.random()
    if r < 0.08:
        return (name, rng.choice(["==", "!="]), None)
    if p.multiple:
        op = rng.choice(["==", "!="])
    else:
        op = rng.choice(["==", "==", "==", "!="] + (OPS if p.dtype == "STRING" else []))
    if rng.random() < 0.35:
        value = rng.sample(pool, rng.randrange(1, len(pool) + 1))
    else:
        value = rng.choice(pool)
    return (name, op, value)


def random_query(rng: random.Random, cols: dict[str, PropSpec]) -> list:
    """List of selections (alternatives); every selection is a list of conditions. [] selects everything."""
    if rng.random() < 0.15:
        return []
    return [[random_condition(rng, cols) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def build_query(job: str, plan: list, rng: random.Random | None = None):
    from mixtera.core.query import Query

    q = Query.for_job(job)
    if not plan:
        return q.select(None)
    for sel in plan:
        q = q.select(sel[0] if len(sel) == 1 and (rng is None or rng.random() < 0.5) else list(sel))
    return q


def _cmp(op, a, b):
    return {"==": a == b, "!=": a != b, ">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b}[op]


def condition_holds(cond, meta: dict, cols: dict[str, PropSpec]):
    """Three-valued: True, False or None (unknown because the sample has no value)."""
    name, op, value = cond
    have = meta.get(name)
    if value is None:
        return (have is None) == (op == "==")
    if have is None:
        return None
    if cols[name].multiple:
        vals = have if isinstance(have, list) else [have]
        want = value if isinstance(value, list) else [value]
        hit = any(w in vals for w in want)
        return hit if op == "==" else not hit
    if isinstance(value, list) and len(value) > 1:
        if op == "==":
            return have in value
        if op == "!=":
            return have not in value
        return any(_cmp(op, have, v) for v in value)
    v = value[0] if isinstance(value, list) else value
    return _cmp(op, have, v)


def selects(plan: list, meta: dict, cols: dict[str, PropSpec]) -> bool:
    if not plan:
        return True
    return any(all(condition_holds(c, meta, cols) is True for c in sel) for sel in plan)
