"""Child process of P03: builds indices with a sanitizer variant of the native builder; argv: ext_path seed count mode out"""
import importlib.util
import json
import os
import random
import sys
import threading
import types


def main() -> None:
    path, seed, count, mode, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5]
    import pyarrow as pa

    # The builder needs only the key class from Python; the stand-in keeps this process small. A builder that needs
    # more falls back to the real package.
    class MixtureKey:
        def __init__(self, properties):
            self.properties = properties

    def stub():
        for name in ("mixtera", "mixtera.core", "mixtera.core.query", "mixtera.core.query.mixture"):
            m = types.ModuleType(name)
            m.__path__ = []
            sys.modules[name] = m
        sys.modules["mixtera.core.query.mixture"].MixtureKey = MixtureKey

    stub()
    spec = importlib.util.spec_from_file_location("chunker_extension", path)
    ext = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ext)
    from vh import tables

    res = dict(builds=0, rejected=0, rows=0, threads=0, concurrent=0, violations=[], accepted={}, started=-1)
    state = open(out + ".at", "w")
    for n in range(count):
        rng = random.Random(f"{seed}|{n}")
        state.seek(0)
        state.write(f"{n:8d}")
        state.flush()
        try:
            if mode == "hostile" and rng.random() < 0.5:
                kind, obj = tables.hostile_shape(pa, rng)
                threads = rng.choice([0, 1, 4])
                try:
                    got = ext.create_chunker_index_cpp(obj, threads)
                except Exception as e:  # pylint: disable=broad-except
                    if isinstance(e, (ImportError, AttributeError)):
                        raise
                    res["rejected"] += 1
                    continue
                res["accepted"][kind] = res["accepted"].get(kind, 0) + 1
                if kind not in ("string-view", "list-view", "fixed-list", "recordbatch", "binary-prop"):
                    res["violations"].append(dict(n=n, msg=f"unsupported table ({kind}) was not rejected", got=repr(got)[:300]))
                continue
            if mode == "hostile" and rng.random() < 0.1:
                t, _ = tables.encode(pa, rng, *tables.random_logical(rng, 20))
                try:
                    ext.create_chunker_index_cpp(t, rng.choice([-1, -5, -2 ** 31]))
                    res["violations"].append(dict(n=n, msg="a negative thread count was not rejected"))
                except Exception:  # pylint: disable=broad-except
                    res["rejected"] += 1
                continue
            jobs = []
            for _ in range(3 if mode == "concurrent" else 1):
                cols, rows = tables.random_logical(rng, rng.choice([40, 400]))
                t, _ = tables.encode(pa, rng, cols, rows)
                jobs.append((cols, rows, t, rng.choice([1, 2, 3, 5, 8, 16, 40])))
            errors = []

            def work(cols, rows, t, threads):
                try:
                    got = {}
                    for k, v in ext.create_chunker_index_cpp(t, threads).items():
                        got[tuple(sorted((p, tuple(sorted(x))) for p, x in k.properties.items()))] = v
                    got = {k: {d: {f: [tuple(iv) for iv in ivs] for f, ivs in fs.items()} for d, fs in ds.items()} for k, ds in got.items()}
                    diff = tables.difference(got, tables.expected(cols, rows))
                    if diff:
                        errors.append(f"index differs: {diff}")
                except Exception as e:  # pylint: disable=broad-except
                    errors.append(f"{type(e).__name__}: {e}")

            if len(jobs) == 1:
                work(*jobs[0])
            else:
                ts = [threading.Thread(target=work, args=j) for j in jobs]
                for x in ts:
                    x.start()
                for x in ts:
                    x.join()
                res["concurrent"] += 1
            for c, r, t, th in jobs:
                res["builds"] += 1
                res["rows"] += len(r)
                res["threads"] += min(th, max(1, len(t.column(0).chunks)))
            for e in errors:
                res["violations"].append(dict(n=n, msg=e[:500]))
        except (ImportError, AttributeError) as e:
            res["setup_error"] = repr(e)
            break
    with open(out + ".tmp", "w", encoding="utf-8") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0) if mode != "leak" else None


if __name__ == "__main__":
    main()
