"""P03: the native index builder is free of memory errors and data races."""
import json
import os
import re
import signal
import subprocess
import sys

from vh import ext

LEVEL = "exploration"
TECHNIQUE = "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer builds of the native builder under hostile tables"
NOTE = ("no report on the executed tables, thread counts and schedules; the Arrow and Python libraries themselves are not instrumented, "
        "and logging, formatting and hash-map dependencies are replaced by header stand-ins")
RULE = ("an evaluation is one call of the builder inside an instrumented process (half of them tables of unsupported shape in the hostile "
        "mode, three concurrent builds in the concurrent mode); distinct by process (seed, mode, sanitizer)")
ASSUMPTIONS = ["dependencies of the native source are stand-ins (native/shim), so errors inside them are out of scope"]
CASES = {"quick": 18, "thorough": 400}
BUDGET = {"quick": 90, "thorough": 700}
SHARDS = {"quick": 6, "thorough": 7}
CASE_CPU = 200
VARIANTS = ["asan", "tsan"]
MUST_OBSERVE = ["asan_builds", "tsan_builds", "rejected_tables", "concurrent_rounds", "builder_threads"]
MODES = [("asan", "hostile"), ("tsan", "plain"), ("asan", "plain"), ("tsan", "concurrent"), ("asan", "concurrent"), ("tsan", "hostile")]


def lib(name):
    return subprocess.run(["g++", f"-print-file-name={name}"], capture_output=True, text=True).stdout.strip()


def setup(ctx):
    std = lib("libstdc++.so.6")
    st = {v: (ext.build(v), f"{lib(f'lib{v}.so')} {std}") for v in ("asan", "tsan")}
    return st


def reports(text: str, src: str) -> list[str]:
    """Sanitizer reports that involve the sources of the builder."""
    out = []
    for part in re.split(r"(?m)^={18,}$", text):
        if "WARNING: ThreadSanitizer" in part:
            stacks = [s for s in re.split(r"\n\s*\n", part) if re.search(r"(?m)^\s+#0", s) and re.search(r"(?i)(read|write) of size", s)]
            if stacks and all(src in s for s in stacks[:2]):
                out.append(part)
            elif "data race" not in part and src in part:
                out.append(part)
        elif "ERROR: AddressSanitizer" in part:
            out.append(part)
    for m in re.finditer(r"(?m)^.*runtime error:.*$", text):
        out.append(m.group(0))
    return out


def run_case(ctx, st, i):
    variant, mode = MODES[i % len(MODES)]
    path, preload = st[variant]
    d = ctx.dir("n")
    out = d / "out.json"
    count = {"plain": 40, "hostile": 120, "concurrent": 14}[mode] * (1 if ctx.quick else 3)
    env = dict(os.environ, LD_PRELOAD=preload, PYTHONMALLOC="malloc", OMP_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
               TSAN_OPTIONS="halt_on_error=0:exitcode=0:ignore_noninstrumented_modules=1:report_signal_unsafe=0:history_size=5")
    cmd = [sys.executable, "-m", "vh.native_child", str(path), f"{ctx.seed}|{ctx.tier}|{i}", str(count), mode, str(out)]
    r = subprocess.run(cmd, env=env, capture_output=True, cwd=str(ctx.scratch_root), check=False)
    text = (r.stderr + r.stdout).decode("utf-8", "replace")
    at = (d / "out.json.at").read_text().strip() if (d / "out.json.at").exists() else "before the first table"
    ctx.note(variant=variant, mode=mode, command=cmd, table=at)
    rep = reports(text, "chunker")
    if rep:
        kind = re.search(r"(ERROR: AddressSanitizer: [\w-]+|WARNING: ThreadSanitizer: [\w -]+|runtime error: .*)", rep[0])
        ctx.fail(f"{variant} report in table {at}: {kind.group(1) if kind else ''}", f"{variant}-report", report=rep[0][:1800])
    if not out.exists():
        if r.returncode < 0 or "terminate called" in text or r.returncode in (77, 134):
            ctx.fail(f"the process died (status {r.returncode}) in table {at}", "crash", output=text[-1800:])
        raise RuntimeError(f"child failed with status {r.returncode}: {text[-1500:]}")
    res = json.loads(out.read_text())
    if "setup_error" in res:
        raise RuntimeError("child cannot use the builder: " + res["setup_error"])
    for v in res["violations"][:1]:
        ctx.fail(f"table {v['n']}: {v['msg']}", "unsupported-accepted" if "not rejected" in v["msg"] else "wrong-index", **v)
    ctx.evaluated(res["builds"] + res["rejected"])
    ctx.count(f"{variant}_builds", res["builds"])
    ctx.count("rejected_tables", res["rejected"])
    ctx.count("concurrent_rounds", res["concurrent"])
    ctx.count("rows", res["rows"])
    ctx.count("builder_threads", res["threads"])
    for k, v in res["accepted"].items():
        ctx.count(f"accepted_{k}", v)
    ctx.distinct(i, variant, mode)
    ctx.sample(dict(variant=variant, mode=mode, **{k: res[k] for k in ("builds", "rejected", "rows", "threads")}))


_ = signal
