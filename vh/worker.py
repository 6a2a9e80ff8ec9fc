"""One shard of a check: runs its share of the cases in this process and writes a JSON result."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback
from pathlib import Path

from vh.ctx import Ctx, HangDetected, Skip, Violation, blame


def main() -> None:
    prop, tier, seed, shard, nshards, scratch, out, only = sys.argv[1:9]
    scratch_p, out_p = Path(scratch), Path(out)
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    mod = importlib.import_module(f"vh.props.{prop.lower()}")
    ctx = Ctx(prop, tier, int(seed), int(shard), int(nshards), scratch_p, float(mod.BUDGET[tier]))
    beat = out_p.with_suffix(".beat")

    def heartbeat(what: str) -> None:
        beat.write_text(what)

    heartbeat("setup")
    state = None
    try:
        os.chdir(scratch_p)
        state = mod.setup(ctx) if hasattr(mod, "setup") else None
        ctx.t0 = time.monotonic()
        total = mod.CASES[tier]
        cases = [int(only)] if only != "-" else range(int(shard), total, int(nshards))
        for i in cases:
            if ctx.out_of_time() and only == "-":
                ctx.count("cases_not_started_for_time", 1)
                continue
            heartbeat(f"case {i}")
            ctx.begin(i)
            try:
                cpu = getattr(mod, "CASE_CPU", 45)
                with ctx.cpu_limit(cpu, f"case {i}"):
                    mod.run_case(ctx, state, i)
                ctx.count("cases")
            except Violation:
                ctx.count("cases")
                if ctx.violations and ctx.violations[-1].get("hang"):
                    break  # every further hang would cost the same CPU time again
            except Skip:
                ctx.skipped += 1
            except (Exception, HangDetected) as e:  # pylint: disable=broad-except
                tb = "".join(traceback.format_exception(e))
                if blame(e) == "repo":
                    ctx.record(f"unexpected {type(e).__name__}: {str(e)[:500]}", f"raises-{type(e).__name__}", traceback=tb[-3000:])
                else:
                    ctx.errors.append(f"case {i}: {tb[-3000:]}")
            if not getattr(mod, "KEEP_DIRS", False):
                ctx.cleanup_case()
            if len(ctx.violations) >= ctx.max_violations and not getattr(mod, "KEEP_GOING", False):
                break
            if len(ctx.errors) >= 3:
                break
        heartbeat("finish")
        if hasattr(mod, "finish"):
            mod.finish(ctx, state)
    except Exception as e:  # pylint: disable=broad-except
        tb = "".join(traceback.format_exception(e))
        if blame(e) == "repo":
            ctx.record(f"unexpected {type(e).__name__} in set-up: {str(e)[:500]}", f"raises-{type(e).__name__}", traceback=tb[-3000:])
        else:
            ctx.errors.append(f"setup/finish: {tb[-3000:]}")
    except Violation:
        pass
    tmp = out_p.with_suffix(".tmp")
    tmp.write_text(json.dumps(ctx.result()))
    os.replace(tmp, out_p)
    sys.stdout.flush()
    os._exit(0)  # do not wait for stray threads or children of the code under test


if __name__ == "__main__":
    main()
