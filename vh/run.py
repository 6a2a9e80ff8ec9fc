"""Entry point of every check: python -m vh.run <property> <quick|thorough> [--replay FILE] [--case N] [--seed N]"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import psutil

VERIF = Path(__file__).resolve().parent.parent
HARD_LIMIT = 840
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def known_findings(prop: str) -> dict[str, str]:
    """mechanism -> description of the open findings of this property."""
    out = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    out[parts[2].removeprefix("mech=")] = parts[3]
    return out


def tree_cpu(pid: int) -> tuple[float, bool]:
    """CPU seconds used by the process tree and whether everything in it is sleeping."""
    total, asleep = 0.0, True
    try:
        root = psutil.Process(pid)
        for p in [root] + root.children(recursive=True):
            try:
                t = p.cpu_times()
                total += t.user + t.system
                if p.status() not in (psutil.STATUS_SLEEPING, psutil.STATUS_ZOMBIE, psutil.STATUS_IDLE):
                    asleep = False
            except psutil.Error:
                asleep = False
    except psutil.Error:
        return 0.0, False
    return total, asleep


def dump_stacks(pid: int) -> None:
    """Asks every Python process of the harness in the tree to write down where its threads are."""
    bit = 1 << (signal.SIGUSR1 - 1)
    try:
        root = psutil.Process(pid)
        for p in root.children(recursive=True) + [root]:
            try:
                status = Path(f"/proc/{p.pid}/status").read_text()
                caught = int(next(x for x in status.splitlines() if x.startswith("SigCgt:")).split()[1], 16)
                if caught & bit:
                    os.kill(p.pid, signal.SIGUSR1)
                    time.sleep(0.3)
            except (OSError, StopIteration):
                pass
    except psutil.Error:
        pass
    time.sleep(0.5)


def child_logs(d: Path) -> str:
    out = []
    for f in sorted(d.rglob("*.log"), key=lambda f: f.stat().st_mtime)[-4:]:
        if time.time() - f.stat().st_mtime < 60:
            out.append(f"--- {f.name}\n" + f.read_bytes()[-9000:].decode("utf-8", "replace"))
    return "\n".join(out)


EVIDENCE = Path(os.environ.get("VH_EVIDENCE") or VERIF / "evidence")


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    t0 = time.monotonic()
    prop, tier = a.prop, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        tier, seed, only = r["tier"], r["seed"], r["case"]
    if a.case is not None:
        only = a.case
    mod = importlib.import_module(f"vh.props.{prop.lower()}")
    nshards = 1 if only is not None else (a.jobs or mod.SHARDS[tier])
    scratch = Path(tempfile.mkdtemp(prefix=f"vh-{prop}-"))
    replay_dir = EVIDENCE / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    if only is None:
        for f in replay_dir.glob(f"{prop}-*.json"):
            f.unlink()

    if getattr(mod, "NATIVE", True):
        from vh import ext

        for variant in getattr(mod, "VARIANTS", ["plain"]):
            try:
                ext.build(variant)
            except ext.BuildError as e:
                print(f"note: native source does not build ({variant}): {str(e)[-600:]}", file=sys.stderr)

    env = dict(os.environ)
    env.update(getattr(mod, "ENV", {}))
    procs = []
    for s in range(nshards):
        d = scratch / f"s{s}"
        d.mkdir()
        out = scratch / f"r{s}.json"
        log = open(scratch / f"log{s}", "wb")
        p = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "vh.worker", prop, tier, str(seed), str(s), str(nshards), str(d), str(out),
             "-" if only is None else str(only)],
            stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=VERIF)
        procs.append(dict(p=p, out=out, log=scratch / f"log{s}", shard=s, beat=None, cpu=0.0, since=time.monotonic(), note=None))

    quiesce = getattr(mod, "QUIESCE", 150)
    last_poll = 0.0
    while any(x["p"].poll() is None for x in procs):
        time.sleep(0.05)
        now = time.monotonic()
        if now - last_poll < 2:
            continue
        last_poll = now
        for x in procs:
            if x["p"].poll() is not None:
                continue
            bf = x["out"].with_suffix(".beat")
            beat = bf.read_text() if bf.exists() else ""
            cpu, asleep = tree_cpu(x["p"].pid)
            if beat != x["beat"] or not asleep or cpu - x["cpu"] > 0.5:
                x.update(beat=beat, cpu=cpu, since=now)
            elif now - x["since"] > quiesce:
                x["note"] = "deadlock"
                dump_stacks(x["p"].pid)
                x["stacks"] = child_logs(scratch / f"s{x['shard']}")
                os.killpg(x["p"].pid, signal.SIGKILL)
            if now - t0 > HARD_LIMIT:
                x["note"] = "timeout"
                os.kill(x["p"].pid, signal.SIGUSR1)
                time.sleep(0.2)
                os.killpg(x["p"].pid, signal.SIGKILL)

    tot = dict(evaluations=0, counters={}, samples=[], violations=[], errors=[], skipped=0)
    distinct: set[str] = set()
    for x in procs:
        rc = x["p"].returncode
        try:
            os.killpg(x["p"].pid, signal.SIGKILL)  # stray children
        except OSError:
            pass
        log = x["log"].read_bytes()[-6000:].decode("utf-8", "replace")
        bf = x["out"].with_suffix(".beat")
        beat = bf.read_text() if bf.exists() else "start"
        case = int(beat.split()[1]) if beat.startswith("case ") else -1
        if x["out"].exists():
            r = json.loads(x["out"].read_text())
            tot["evaluations"] += r["evaluations"]
            tot["skipped"] += r["skipped"]
            distinct.update(r["distinct"])
            for k, v in r["counters"].items():
                if k.startswith("max_"):
                    tot["counters"][k] = max(tot["counters"].get(k, 0), v)
                else:
                    tot["counters"][k] = tot["counters"].get(k, 0) + v
            tot["samples"] += r["samples"][:1] if nshards > 2 else r["samples"]
            tot["violations"] += r["violations"]
            tot["errors"] += r["errors"]
        elif x["note"] == "deadlock" and getattr(mod, "DEADLOCK_IS_VIOLATION", True) and beat.startswith("case"):
            tot["violations"].append(dict(case=case, mech="deadlock", detail={"log": log, "children": x["stacks"]},
                                          msg="the process and its children slept without progress"))
        elif rc is not None and rc < 0 and -rc in CRASH_SIGNALS and beat.startswith("case"):
            tot["violations"].append(dict(case=case, mech="crash", detail={"log": log},
                                          msg=f"process died with signal {signal.Signals(-rc).name}"))
        else:
            tot["errors"].append(f"shard {x['shard']} ended without result (rc={rc}, {x['note']}, at '{beat}')\n{log[-3000:]}")

    known = known_findings(prop)
    new, seen_known = [], {}
    for v in tot["violations"]:
        if v["mech"] in known:
            seen_known[v["mech"]] = seen_known.get(v["mech"], 0) + 1
        else:
            new.append(v)
    new.sort(key=lambda v: v["case"])
    lines = []
    for n, v in enumerate(new[:10]):
        rp = replay_dir / f"{prop}-{n}.json"
        rp.write_text(json.dumps(dict(property=prop, tier=tier, seed=seed, **v), indent=1))
        lines.append(f"VIOLATION property={prop} replay={rp}")
        print(f"{prop} case {v['case']} [{v['mech']}]: {v['msg']}")
    for mech, text in known.items():
        if mech in seen_known or only is None:
            print(f"KNOWN-FINDING: property={prop} {text}" + ("" if mech in seen_known else " (not met in this run)"))
    for line in lines:
        print(line)

    min_eval = getattr(mod, "MIN_EVALUATIONS", {}).get(tier, 1) if only is None else 0
    need = getattr(mod, "MUST_OBSERVE", []) if only is None else []
    wall = time.monotonic() - t0
    evidence = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
                    coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=len(distinct), rule=mod.RULE,
                                  samples=tot["samples"][:6], observed=tot["counters"], skipped=tot["skipped"],
                                  shards=nshards, known_findings_met=seen_known),
                    assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(new))
    if only is None:
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    keep = os.environ.get("VH_KEEP")
    if keep:
        print("scratch:", scratch)
    else:
        shutil.rmtree(scratch, ignore_errors=True)
    if lines:
        return 1
    missing = [m for m in need if not tot["counters"].get(m)]
    if tot["counters"].get("cases_not_started_for_time"):  # a slow machine: less was seen, and the evidence says so
        for m in missing:
            print("note: not reached within the time limit:", m, file=sys.stderr)
        missing, min_eval = [], min_eval // 10
    if tot["errors"] or tot["evaluations"] < min_eval or missing:
        for e in tot["errors"][:3]:
            print("INCONCLUSIVE:", e, file=sys.stderr)
        if missing:
            print("INCONCLUSIVE: monitors never reached:", missing, file=sys.stderr)
        if tot["evaluations"] < min_eval:
            print(f"INCONCLUSIVE: only {tot['evaluations']} evaluations", file=sys.stderr)
        return 3
    print(f"{prop} held: {tot['evaluations']} evaluations, {len(distinct)} distinct, {wall:.1f} s, observed {tot['counters']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
