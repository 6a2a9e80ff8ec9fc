"""P02: index building conserves every interval for any threads and batching."""
from vh import tables

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: conservation oracle over the native builder's output on random tables, encodings and thread counts"
NOTE = ("held on the executed tables: the complete index is compared with one computed row by row from the rows the table was "
        "encoded from; control characters U+001E/U+001F in values are not covered (reserved by the builder)")
RULE = ("an evaluation is one build compared entry by entry; every logical table is built in several physical encodings (plain, "
        "dictionary, large, sliced, chunked, empty batches, all integer widths) and with several thread counts; non-trivial: at "
        "least two rows and two batches; distinct by rows, encoding and thread count")
ASSUMPTIONS = ["ids and bounds are never null and dictionaries hold no null entries", "values contain neither U+001E nor U+001F",
               "property names contain no colon"]
CASES = {"quick": 700, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 600}
SHARDS = {"quick": 6, "thorough": 8}
CASE_CPU = 60
MUST_OBSERVE = ["builds", "multi_batch_builds", "multi_thread_builds", "merged_entries", "empty_tables"]
MIN_EVALUATIONS = {"quick": 500, "thorough": 5000}


def setup(ctx):
    from vh.boot import boot

    boot()
    from mixtera.core.query.query_result import QueryResult  # noqa: F401
    import sys

    return sys.modules["mixtera.core.query.chunker"].create_chunker_index


def run_case(ctx, build, i):
    import pyarrow as pa

    rng = ctx.rng
    big = i % 9 == 0
    cols, rows = tables.random_logical(rng, 3000 if big else 150)
    want = tables.expected(cols, rows)
    for _ in range(3 if ctx.quick else 5):
        table, descr = tables.encode(pa, rng, cols, rows)
        for threads in rng.sample([0, 1, 2, 3, 4, 5, 8, 17, 64], 3):
            ctx.note(rows=rows[:30], encoding=descr, threads=threads, columns=[(c.name, c.multi) for c in cols])
            try:
                got = tables.plain_index(build(table, threads))
            except AssertionError as e:
                ctx.fail(str(e), "domain-twice")
            except RuntimeError as e:
                ctx.fail(f"a well-typed table is rejected: {e}", "rejected")
            diff = tables.difference(got, want)
            ctx.check(diff is None, f"the index differs from the table: {diff}", "index-differs")
            ctx.evaluated()
            ctx.count("builds")
            nb = len(descr["batches"])
            if threads > 1:
                ctx.count("multi_thread_builds")
            if nb > 1:
                ctx.count("multi_batch_builds")
                if threads > 1 and any(len(ivs) > 1 for ds in want.values() for fs in ds.values() for ivs in fs.values()):
                    ctx.count("merged_entries")
            if not rows:
                ctx.count("empty_tables")
            if len(rows) > 1 and nb > 1:
                ctx.distinct(rows, sorted(descr["encodings"].items()), descr["batches"], threads)
    ctx.sample(dict(rows=len(rows), domains=len(want), columns=[(c.name, c.multi) for c in cols]))
