"""A real MixteraServer in a process of its own, and clients whose polling does not wait for seconds."""
import asyncio
import faulthandler
import gc
import importlib.util
import itertools
import os
import signal
import socket
import sys
import threading
import time
from pathlib import Path

from vh import proc

_names = itertools.count()
_asleep, _sleep = asyncio.sleep, time.sleep


def fast_polling(cap=0.01):
    """Clients poll the server every second and wait seconds before they retry: shorten both (this process only)."""
    async def asleep(delay, result=None):
        return await _asleep(min(delay, cap), result)

    def nap(s):
        napped.seconds = getattr(napped, "seconds", 0) + s
        _sleep(min(s, cap))

    asyncio.sleep = asleep
    time.sleep = nap


napped = threading.local()  # how long this thread would have slept


def wait_for_failure(ctx, client, job, result, limit=1500):
    """Called after waiting for a job returned `result`: a failure has to be known at some point, not to be concluded from a very long silence."""
    for _ in range(3):
        if result or getattr(napped, "seconds", 0) < limit:
            return
        napped.seconds = 0
        result = client.wait_for_execution(job)
    ctx.fail(f"that {job} failed is never reported: waiting for it ends with the client's own time limit only", "failure-unreported")


def show_tasks(*_):
    for loop in [o for o in gc.get_objects() if isinstance(o, asyncio.BaseEventLoop)]:
        for t in asyncio.all_tasks(loop):
            f = t.get_stack(limit=30)[-1:]
            where, coro = [], t.get_coro()
            while coro is not None and len(where) < 20:
                fr = getattr(coro, "cr_frame", None)
                if fr is not None:
                    where.append(f"{os.path.basename(fr.f_code.co_filename)}:{fr.f_lineno} {fr.f_code.co_name}")
                coro = getattr(coro, "cr_await", None)
            print("task", where, f, file=sys.stderr, flush=True)


def serve(home, port, pidfile):
    """Runs in a forked child until it is killed."""
    from loguru import logger
    from mixtera.network.server import MixteraServer

    faulthandler.register(signal.SIGUSR1, all_threads=True)
    signal.signal(signal.SIGUSR2, show_tasks)
    logger.remove()
    logger.enable("mixtera")
    logger.add(sys.stderr, level="WARNING", backtrace=False, diagnose=False)
    with open(pidfile + ".tmp", "w", encoding="ascii") as f:
        f.write(str(os.getpid()))
    os.rename(pidfile + ".tmp", pidfile)
    MixteraServer(Path(home), "127.0.0.1", port).run()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


def connects(port):
    try:
        socket.create_connection(("127.0.0.1", port), 2).close()
        return True
    except OSError:
        return False


def children(pid):
    try:
        with open(f"/proc/{pid}/task/{pid}/children", encoding="ascii") as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        return []


class Server:
    def __init__(self, child: proc.Child, home: Path, fn="vh.srv:serve"):
        self.child, self.home, self.fn = child, Path(home), fn
        self.home.mkdir(exist_ok=True)
        self.start()

    def start(self):
        self.port = free_port()
        pidfile = self.home.parent / f"{self.home.name}.pid{next(_names)}"
        self.child.send(self.fn, str(self.home), self.port, str(pidfile))
        t0 = time.monotonic()
        while not (pidfile.exists() and connects(self.port)):
            _sleep(0.01)
            if time.monotonic() - t0 > 120:
                raise RuntimeError("the server does not come up: " + self.log()[-3000:])
        self.pid = int(pidfile.read_text())

    def log(self):
        return self.child.log.read_text("utf-8", "replace")

    def stacks(self):
        """Where the server's threads are, for reports."""
        try:
            os.kill(self.pid, signal.SIGUSR2)
            _sleep(0.3)
            for pid in [self.pid, *children(self.pid)]:  # forked ones inherit the handler
                os.kill(pid, signal.SIGUSR1)
            _sleep(0.5)
        except ProcessLookupError:
            pass
        return self.log()[-6000:]

    def alive(self):
        try:
            with open(f"/proc/{self.pid}/stat", encoding="ascii") as f:
                return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
        except OSError:
            return False

    def stop(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.pid, sig)
        except ProcessLookupError:
            pass
        try:
            return self.child.recv()
        except (proc.ChildDied, proc.ChildError) as e:
            return e

    def client(self):
        from mixtera.core.client import MixteraClient

        return MixteraClient.from_remote("127.0.0.1", self.port)


PARSER_TEXT = '''class {name}(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [{props}]

    def parse(self, line_number, payload, **kwargs):
        import json

        meta = payload["meta"] if "meta" in payload else payload[".json"]["meta"]
        if isinstance(meta, str):
            meta = json.loads(meta)
        self.add_metadata(sample_id=line_number, **meta)
'''
HEAD = '''from typing import Any, Dict, List, Optional

from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty


'''


def parser_class(directory: Path, props, text=None):
    """A parser class that lives in a source file (a client sends its source to the server)."""
    n = next(_names)
    name = f"FileParser{n}"
    decl = ", ".join(f"MetadataProperty(name={p.name!r}, dtype={p.dtype!r}, multiple={p.multiple!r}, nullable={p.nullable!r}, "
                     f"enum_options={(set(p.values) if p.dtype == 'ENUM' else None)!r})" for p in props)
    mod = f"vh_parser_{os.getpid()}_{n}"
    path = Path(directory) / f"{mod}.py"
    path.write_text(HEAD + (text or PARSER_TEXT).format(name=name, props=decl), "utf-8")
    spec = importlib.util.spec_from_file_location(mod, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[mod] = m
    spec.loader.exec_module(m)
    return getattr(m, name)
