"""P25: only metadata that fits the declared schema enters the collection."""
import copy
import json
from collections import Counter

from vh import acc, gen, jobs

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every record offered to a parser is judged by an independent reading of the declared schema, and what the collection "
             "shows for every property and value afterwards is compared with the records offered")
NOTE = "held on the executed schemas, records (accepted and offending ones at any position of any file) and queries"
RULE = ("an evaluation is one record offered to a parser, or one query for a value of a registered dataset; distinct by declared property and kind of value")
ASSUMPTIONS = ["values are strings (or lists of them where a property is multiple); anything else must not be altered silently",
               "parsers agree about the schema of a property they share"]
CASES = {"quick": 60, "thorough": 1500}
BUDGET = {"quick": 45, "thorough": 600}
SHARDS = {"quick": 5, "thorough": 8}
CASE_CPU = 90
MUST_OBSERVE = ["records_accepted", "records_refused", "built_in_accepted", "built_in_refused", "registrations_accepted", "registrations_refused", "value_queries",
                "samples_compared", "nulls_queried"]
MIN_EVALUATIONS = {"quick": 4000, "thorough": 40000}

ODD = ["a", "A", "b", "en", "En", " en", "en ", "", "None", "null", "NULL", "nan", "[]", "[a]", "[a, b]", "a, b", "{}", "'", "it's", '"', 'say "x"', "\\", "\\n", "new\nline", "tab\t",
       "ü", "ü", "中文", "😀", "a b", "a;b", "a:b", "a_b", "1", "01", "1.0", "true", "%", "_", "a%", "x" * 300, "language", "$1", "?", "--", "'; DROP TABLE samples; --"]


def setup(ctx):
    from vh.boot import boot

    boot()


def random_schema(rng, plain=False):
    names = rng.sample(["language", "topic", "license", "year", "set_name", "Tag2", "x"], rng.choice([1, 2, 2, 3, 4]))
    out = []
    for n in names:
        values = rng.sample([v for v in ODD if v and not plain or v.isalpha()], rng.choice([1, 2, 3, 5]))
        out.append(gen.PropSpec(n, rng.choice(["STRING", "ENUM"]), rng.random() < 0.45, rng.random() < 0.5, tuple(values)))
    return out


def random_value(rng, p):
    """A value and whether the schema allows it (None: not given)."""
    pool = list(p.values) if p.dtype == "ENUM" or rng.random() < 0.6 else ODD
    one = lambda: rng.choice(pool)  # noqa: E731
    many = lambda: rng.sample(sorted(set(pool)), rng.randrange(1, min(4, len(set(pool))) + 1))  # noqa: E731
    r = rng.random()
    if r < 0.12:
        return None, p.nullable, "none"
    if r < 0.24:
        return many(), p.multiple, "list"
    if r < 0.34 and p.dtype == "ENUM":
        wrong = rng.choice([v for v in ODD + ["other", p.values[0] + " ", p.values[0][:-1]] if v not in p.values])
        if p.multiple and rng.random() < 0.7:
            v = many() + [wrong]
            rng.shuffle(v)
            return v, False, "list with a wrong option"
        return wrong, False, "wrong option"
    if p.multiple and rng.random() < 0.75:
        return many(), True, "list"
    return one(), True, "value"


def normal(p, v):
    return [v] if p.multiple and v is not None and not isinstance(v, list) else v


def offer(ctx, rng, schema, parser, sample_id):
    record, ok, kinds = {}, True, []
    for p in schema:
        v, fits, kind = random_value(rng, p)
        ok = ok and fits
        kinds.append((p.dtype, p.multiple, p.nullable, kind))
        if v is not None or rng.random() < 0.5:
            record[p.name] = v
    if rng.random() < 0.15:
        record["not declared"] = "x"
    given = copy.deepcopy(record)
    before = copy.deepcopy(parser.metadata)
    ctx.note(schema=[vars(p) for p in schema], record=given, allowed=ok)
    try:
        parser.add_metadata(sample_id=sample_id, **record)
        accepted = True
    except Exception as e:  # pylint: disable=broad-except
        accepted = False
        ctx.check(not ok, f"a record that fits the schema is refused: {e!r}", "valid-refused")
    ctx.check(accepted == ok, "a record that does not fit the schema is accepted", "invalid-accepted")
    if accepted:
        want = {"sample_id": sample_id, **{p.name: normal(p, given.get(p.name)) for p in schema}}
        ctx.check(parser.metadata == before + [want], "an accepted record is not kept as given", "altered", got=parser.metadata[-1:], want=want)
    ctx.count("records_accepted" if accepted else "records_refused")
    for k in kinds:
        ctx.distinct(*k)
    ctx.evaluated()
    return accepted


# -- built-in parsers: payload -> expected record, or None if the payload must be refused -------------------------
def built_in(rng):
    maybe = lambda options, p=0.8: rng.choice(options) if rng.random() < p else None  # noqa: E731
    which = rng.choice(["RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"])
    n = rng.randrange(0, 1000)
    if which == "RED_PAJAMA":
        langs = rng.sample(["Python", "C", "Go", "HTML"], rng.randrange(0, 4))
        date = maybe(["2020-01-01", "x"])
        meta = {}
        if langs or rng.random() < 0.3:
            meta["language"] = [{"name": x, "bytes": "1"} for x in langs]
        if date or rng.random() < 0.3:
            meta["publication_date"] = date
        payload = {"text": "t", "meta": meta} if meta or rng.random() < 0.6 else {"text": "t"}
        return which, n, payload, {"language": langs or None, "publication_date": date}
    if which in ("SLIM_PAJAMA", "PILE"):
        key = "redpajama_set_name" if which == "SLIM_PAJAMA" else "pile_set_name"
        good = ["RedPajamaC4", "RedPajamaBook", "RedPajamaArXiv", "RedPajamaGithub"] if which == "SLIM_PAJAMA" else ["Pile-CC", "Gutenberg (PG-19)", "Wikipedia (en)", "HackerNews"]
        v = maybe(good + ["RedPajama", "pile-cc", ""])
        meta = {key: v} if v is not None or rng.random() < 0.5 else {}
        payload = {"meta": meta} if meta or rng.random() < 0.5 else {}
        return which, n, payload, {key: v} if v in good else None
    if which == "IMAGENET_WEB_DATASET":
        v = maybe([0, 3, 999, "n0144"])
        return which, n, {".cls": v} if v is not None or rng.random() < 0.5 else {".jpg": b""}, {"class_label": str(v)} if v is not None else None
    if which == "FINEWEB":
        lang, dump = maybe(["en", "en", "en", "de"]), maybe(["CC-MAIN-2013", "x"])
        payload = {k: v for k, v in (("language", lang), ("dump", dump)) if v is not None or rng.random() < 0.5}
        return which, n, payload, {"dump": dump, "language": lang} if lang == "en" and dump is not None else None
    return which, n, {}, {"parity": str(n % 3)}


def offer_built_in(ctx, rng, factory, parsers):
    which, n, payload, want = built_in(rng)
    if which not in parsers or rng.random() < 0.05:
        parsers[which] = factory.create_metadata_parser(which, 1, 2)
    p = parsers[which]
    before = len(p.metadata)
    ctx.note(parser=which, payload=payload, want=want)
    try:
        p.parse(n, payload)
        ok = True
    except Exception as e:  # pylint: disable=broad-except
        ok = False
        ctx.check(want is None, f"{which} refuses {payload}: {e!r}", "valid-refused")
    ctx.check(ok == (want is not None), f"{which} accepts {payload}, which lacks or violates what it declares", f"accepts-{which}")
    ctx.check(p.metadata[before:] == ([{"sample_id": n, **want}] if ok else []), f"{which} records {p.metadata[before:]} for {payload}", "altered")
    ctx.count("built_in_accepted" if ok else "built_in_refused")
    ctx.distinct(which, ok, sorted(payload))
    ctx.evaluated()


# -- registrations -------------------------------------------------------------------------------------------------
def end_to_end(ctx, rng):
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    schema = random_schema(rng)
    for p in schema:  # names that SQL does not know
        p.name = {"x": "x1"}.get(p.name, p.name)
    sizes = [rng.choice([1, 3, 12, 40]) for _ in range(rng.choice([1, 2, 3]))]
    metas = []
    for n in sizes:
        ms = []
        for _ in range(n):
            while True:
                m, ok = {}, True
                for p in schema:
                    v, fits, _ = random_value(rng, p)
                    ok = ok and fits
                    if v is not None:
                        m[p.name] = v
                if ok:
                    break
            ms.append(m)
        metas.append(ms)
    fmt = rng.choice(["jsonl", "jsonl", "parquet", "web"])
    if rng.random() < 0.35:
        bad = None
        for _ in range(50):
            p = rng.choice(schema)
            v, fits, kind = random_value(rng, p)
            if not fits:
                bad = (p.name, v, kind)
                break
        if bad:
            f = rng.randrange(len(sizes))
            k = rng.choice([0, sizes[f] - 1, rng.randrange(sizes[f])])
            metas[f][k] = {**metas[f][k], bad[0]: bad[1]}
            ds = w.make_dataset("bad", schema, sizes, fmt=fmt, metas=metas)
            ctx.note(schema=[vars(p) for p in schema], offending=bad, at=(f, k), sizes=sizes)
            try:
                ok = w.register(ds)
            except Exception as e:  # pylint: disable=broad-except
                ok = False
                ctx.note(error=repr(e))
            ctx.check(ok is not True, f"a dataset with an offending record ({bad}) is registered", "invalid-accepted")
            ctx.count("registrations_refused")
            ctx.evaluated()
            w.close()
            return
    ds = w.make_dataset("good", schema, sizes, fmt=fmt, metas=metas)
    ctx.note(schema=[vars(p) for p in schema], sizes=sizes)
    try:
        ok = w.register(ds)
    except Exception as e:  # pylint: disable=broad-except
        ctx.fail(f"a dataset whose records fit the schema is refused: {e!r}", "valid-refused")
    ctx.check(ok is True, "a dataset whose records fit the schema is refused", "valid-refused")
    ctx.count("registrations_accepted")
    where = {jobs.location(w, s): s for s in ds.samples}
    cols = {p.name: p for p in schema}
    plans = [[]]
    for p in schema:
        present = {x for s in ds.samples for x in (normal(gen.PropSpec(p.name, multiple=True), s.meta.get(p.name)) or [])}
        for v in rng.sample(sorted(present), min(4, len(present))):
            plans.append([[(p.name, "==", v)]])
        absent = [v for v in (p.values if p.dtype == "ENUM" else ODD) if v not in present]
        if absent:
            plans.append([[(p.name, "==", rng.choice(absent))]])
        plans.append([[(p.name, "==", None)]])
    for q, plan in enumerate(plans):
        want = Counter((jobs.location(w, s), gen.domain_of(s.meta)) for s in ds.samples if gen.selects(plan, s.meta, cols))
        ctx.note(query=plan, want=len(want))
        got = Counter()
        from mixtera.core.query.mixture import ArbitraryMixture

        with ctx.cpu_limit(30, f"query {plan}", "endless-query"):
            ok = w.client.execute_query(gen.build_query(f"q{q}", plan), acc.exec_args(ArbitraryMixture(chunk_size=50)))
            ctx.check(ok is True, f"query {plan} fails", "query-fails")
            for chunk in acc.chunks_of(w.client, f"q{q}"):
                for dom, rows in acc.chunk_rows(chunk).items():
                    for r in rows:
                        ctx.check(r in where, f"query {plan} yields {r}, which was not registered", "ghost")
                        got[(r, dom)] += 1
        ctx.check(got == want, f"query {plan} finds {sum(got.values())} samples instead of {sum(want.values())}", "query-content",
                  missing=[(where[k[0]].meta, k) for k in (want - got)][:3], extra=[(where[k[0]].meta, k) for k in (got - want)][:3])
        ctx.count("value_queries")
        ctx.count("samples_compared", sum(got.values()))
        if plan and plan[0][0][2] is None:
            ctx.count("nulls_queried")
        ctx.evaluated()
        ctx.distinct("query", *(x for c in plan for y in c for x in (cols[y[0]].dtype, cols[y[0]].multiple, y[2])))
    w.close()


def run_case(ctx, st, i):
    from mixtera.core.datacollection.index.parser import MetadataParserFactory

    rng = ctx.rng
    for _ in range(4):
        schema = random_schema(rng)
        parser = gen.make_parser(schema)(1, 2)
        for k in range(20):
            offer(ctx, rng, schema, parser, k)
    ctx.case_log.clear()
    factory, parsers = MetadataParserFactory(), {}
    for _ in range(40):
        offer_built_in(ctx, rng, factory, parsers)
    ctx.case_log.clear()
    end_to_end(ctx, rng)
    ctx.sample(dict(records=len(parser.metadata), schema=[vars(p) for p in schema]))
