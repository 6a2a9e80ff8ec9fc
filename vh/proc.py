"""Child processes that run functions of the harness against the code under test (fresh process, other hash seed, crash points)."""
import faulthandler
import importlib
import os
import pickle
import signal
import struct
import subprocess
import sys
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


class ChildDied(Exception):
    def __init__(self, rc, log):
        super().__init__(f"child ended with {rc}: {log[-1500:]}")
        self.rc, self.log = rc, log


class ChildError(Exception):
    """An exception inside the child; `blame` says whose code raised it."""

    def __init__(self, who, typ, text, tb):
        super().__init__(f"{typ}: {text}\n{tb[-2500:]}")
        self.who, self.typ, self.text, self.tb = who, typ, text, tb


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError
    n = struct.unpack("<Q", head)[0]
    data = f.read(n)
    if len(data) < n:
        raise EOFError
    return pickle.loads(data)


def _write(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


class Child:
    """A process answering calls one after the other."""

    def __init__(self, scratch: Path, hashseed=None, env=None, name="child", cpu=90, boot=True, group=False, fork=False):
        self.log = Path(scratch) / f"{name}-{os.urandom(3).hex()}.log"
        e = dict(os.environ)
        if hashseed is not None:
            e["PYTHONHASHSEED"] = str(hashseed)
        e.update(env or {})
        self.p = subprocess.Popen([sys.executable, "-X", "faulthandler", "-m", "vh.proc", str(cpu), ("boot" if boot else "bare") + ("+fork" if fork else "")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.log, "wb"), env=e, cwd=VERIF,
                                  start_new_session=group)

    def send(self, fn: str, *args, **kw):
        _write(self.p.stdin, (fn, args, kw))

    def recv(self):
        try:
            kind, val = _read(self.p.stdout)
        except EOFError:
            self.p.wait()
            raise ChildDied(self.p.returncode, self.log.read_text("utf-8", "replace")) from None
        if kind == "exc":
            raise ChildError(*val)
        if kind == "died":
            raise ChildDied(val, self.log.read_text("utf-8", "replace")[-3000:])
        return val

    def call(self, fn: str, *args, **kw):
        try:
            self.send(fn, *args, **kw)
        except BrokenPipeError:
            self.p.wait()
            raise ChildDied(self.p.returncode, self.log.read_text("utf-8", "replace")) from None
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()

    def kill(self):
        self.p.kill()
        self.p.wait()


def judge(ctx, e: ChildError):
    """Turns an exception of the code under test in a child into a violation, others into a harness error."""
    if e.who == "repo":
        ctx.fail(f"unexpected {e.typ} in a child process: {e.text[:400]}", "hang" if e.typ == "HangDetected" else f"raises-{e.typ}", traceback=e.tb[-3000:])
    raise e


def forked(out, m, f, args, kw, cpu):
    """Every call in a process group of its own, forked from a process that has only imported modules."""
    from vh.ctx import HangDetected, blame

    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        try:
            signal.setitimer(signal.ITIMER_PROF, cpu)
            res = ("ok", getattr(importlib.import_module(m), f)(*args, **kw))
        except (Exception, HangDetected) as e:  # pylint: disable=broad-except
            who = "repo" if isinstance(e, HangDetected) else blame(e)
            res = ("exc", (who, type(e).__name__, str(e)[:2000], "".join(traceback.format_exception(e))[-6000:]))
        signal.setitimer(signal.ITIMER_PROF, 0)
        _write(out, res)
        os._exit(77)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if os.waitstatus_to_exitcode(status) != 77:
        _write(out, ("died", os.waitstatus_to_exitcode(status)))


def main():
    cpu, mode = float(sys.argv[1]), sys.argv[2]
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(2, 1)
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    from vh.ctx import HangDetected, blame

    forking = mode.endswith("+fork")
    if mode.startswith("boot"):
        from vh.boot import boot

        boot()
    for m in filter(None, os.environ.get("VH_PRELOAD", "").split(",")):
        importlib.import_module(m)

    def on_prof(_s, _f):
        raise HangDetected("no progress within the CPU limit")

    signal.signal(signal.SIGPROF, on_prof)
    while True:
        try:
            fn, args, kw = _read(inp)
        except EOFError:
            break
        m, f = fn.split(":")
        if forking:
            forked(out, m, f, args, kw, cpu)
            continue
        try:
            signal.setitimer(signal.ITIMER_PROF, cpu)
            try:
                res = ("ok", getattr(importlib.import_module(m), f)(*args, **kw))
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except (Exception, HangDetected) as e:  # pylint: disable=broad-except
            who = "repo" if isinstance(e, HangDetected) else blame(e)
            res = ("exc", (who, type(e).__name__, str(e)[:2000], "".join(traceback.format_exception(e))[-6000:]))
        _write(out, res)
    os._exit(0)


if __name__ == "__main__":
    main()
