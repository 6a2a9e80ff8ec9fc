"""What the demonstration needs to run queries without the native index builder, which is not built here."""
import json
import os
import pathlib
import sys
import types

SCRATCH = pathlib.Path(os.environ["SCRATCH"])
RESERVED = {"dataset_id", "file_id", "group_id", "interval_start", "interval_end"}


def build_index(table, num_threads=1):
    from mixtera.core.query.mixture import MixtureKey

    index, keys = {}, {}
    for row in table.to_pylist():
        dom = {}
        for name, value in row.items():
            if name not in RESERVED and value is not None:
                dom[name] = sorted(value) if isinstance(value, list) else [value]
        ident = json.dumps(dom, sort_keys=True, default=str)
        if ident not in keys:
            keys[ident] = MixtureKey(dom)
            index[ident] = {}
        files = index[ident].setdefault(row["dataset_id"], {})
        files.setdefault(row["file_id"], []).append((row["interval_start"], row["interval_end"]))
    for datasets in index.values():
        for files in datasets.values():
            for ranges in files.values():
                ranges.sort()
    return {keys[i]: v for i, v in index.items()}


from loguru import logger  # noqa: E402

logger.remove()
name = "mixtera.core.query.chunker.chunker_extension"
module = types.ModuleType(name)
module.create_chunker_index_cpp = build_index
sys.modules[name] = module
import mixtera.core.datacollection  # noqa: E402,F401
from mixtera.core.client import MixteraClient, QueryExecutionArgs, ResultStreamingArgs  # noqa: E402,F401
from mixtera.core.datacollection.datasets import JSONLDataset  # noqa: E402
from mixtera.core.datacollection.index.parser import MetadataParser  # noqa: E402
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty  # noqa: E402
from mixtera.core.query import Query  # noqa: E402,F401
from mixtera.core.query import mixture as mixtures  # noqa: E402,F401
from mixtera.core.query.mixture import (  # noqa: E402,F401
    ArbitraryMixture, HierarchicalStaticMixture, InferringMixture, MixtureKey, StaticMixture)


def text_of(line):
    return json.loads(line)["text"]


class DemoParser(MetadataParser):
    PROPS = [("language", "STRING", False), ("topic", "STRING", True)]

    @classmethod
    def get_properties(cls):
        return [MetadataProperty(name=n, dtype=d, multiple=m, nullable=True) for n, d, m in cls.PROPS]

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(sample_id=line_number, **payload["meta"])


def write_file(path, samples):
    """samples: list of (text, metadata)"""
    path = pathlib.Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("".join(json.dumps({"text": t, "meta": m}) + "\n" for t, m in samples))
    return path


def collection(files, home="mixtera", name="data", parser=DemoParser, client=None):
    """files: list of lists of (text, metadata); one registered dataset."""
    for i, samples in enumerate(files):
        write_file(SCRATCH / f"files_{name}" / f"part{i:03d}.jsonl", samples)
    if client is None:
        (SCRATCH / home).mkdir(exist_ok=True)
        client = MixteraClient.from_directory(SCRATCH / home)
    client.register_metadata_parser("demo", parser)
    assert client.register_dataset(name, str(SCRATCH / f"files_{name}"), JSONLDataset, text_of, "demo")
    return client


def samples(client, job, dp=0, node=0, worker=0, **options):
    options.setdefault("chunk_reading_mixture_type", "simple")
    args = ResultStreamingArgs(job_id=job, dp_group_id=dp, node_id=node, worker_id=worker, **options)
    return [text for _, _, text in client.stream_results(args)]


def done(ok, what):
    print("ok" if ok else "BROKEN", what)
    sys.stdout.flush()
    if not ok:
        os._exit(1)
