"""P26: a faulty or vanishing client does not disturb the others."""
import os
import shutil
import socket
import struct
import threading
import time

from vh import acc, gen, play, proc, srv
from vh.props import p14

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring and fault injection: raw sockets send broken, incomplete, late, abandoned and failing requests to a real server while "
             "healthy clients run jobs whose complete histories are compared with undisturbed local ones; server process, sockets and memory are watched")
NOTE = "held on the executed attacks (cut at any byte, wrong sizes, garbage, resets, slow senders, failing requests) next to the executed jobs"
RULE = "an evaluation is one case: several hundred attacks next to one to three healthy jobs and a client that keeps asking about the catalogue; distinct by attacks and jobs"
ASSUMPTIONS = ["code and pickled objects that clients send are trusted: broken ones are sent, malicious ones are not",
               "requests do not ask for absurd amounts of work (such as billions of data parallel groups) or for files that never end",
               "a client that sends a complete, valid request for a job belongs to that job"]
CASES = {"quick": 36, "thorough": 400}
BUDGET = {"quick": 75, "thorough": 650}
SHARDS = {"quick": 6, "thorough": 6}
CASE_CPU = 200
QUIESCE = 100
MUST_OBSERVE = ["attacks", "cut_requests", "resets", "failing_requests", "garbage", "jobs_compared", "probes", "samples_compared", "slow_senders", "abandoned_answers"]
MIN_EVALUATIONS = {"quick": 14, "thorough": 150}
setup = p14.setup


def i8(x):
    return int(x).to_bytes(8, "big", signed=True)


def text(x, size=8):
    b = x.encode()
    return len(b).to_bytes(size, "big") + b


def blob(obj):
    import dill

    b = obj if isinstance(obj, bytes) else dill.dumps(obj)
    return len(b).to_bytes(16, "big") + b


def array(a):
    import io

    import numpy as np

    if a is None:
        return i8(0)
    f = io.BytesIO()
    np.save(f, np.array(a, dtype=np.float32), allow_pickle=False)
    return i8(1) + blob(f.getvalue())


class Attacks:
    """Makes requests; whatever is complete and valid is about the attacker's own jobs and datasets only."""

    def __init__(self, ctx, rng, port, home, healthy, datasets, file):
        self.ctx, self.rng, self.port, self.home, self.healthy, self.datasets, self.file = ctx, rng, port, home, healthy, datasets, file
        self.own = [f"evil-{k}" for k in range(3)]
        self.waiting = 0
        self.idle: list = []
        self.log: list = []

    def request(self, job):
        """One request as a list of its parts, and whether it names something that is not the attacker's."""
        rng = self.rng
        from mixtera.core.query.mixture import ArbitraryMixture

        name = rng.choice(["query", "status", "file", "meta", "chunk", "dataset", "registration", "parser", "exists", "list", "remove", "property",
                           "checkpoint", "completed", "restore", "feedback"])
        num = lambda: rng.choice([0, 0, 0, 1, 2])  # noqa: E731
        ds = rng.choice(self.datasets) if job in self.healthy else rng.choice(["evil set", "", "evil 2"])
        p = {
            "query": lambda: [i8(0), blob(ArbitraryMixture(chunk_size=rng.choice([1, 5]))), i8(1), i8(1), i8(1), blob(gen.build_query(job, []))],
            "status": lambda: [i8(1), text(job)],
            "file": lambda: [i8(2), text(self.file)],
            "meta": lambda: [i8(4), text(job)],
            "chunk": lambda: [i8(5), text(job), i8(0), i8(0), i8(0)],
            "dataset": lambda: [i8(6), text(ds), text(str(self.home)), i8(1), blob(len), text("no parser")],
            "registration": lambda: [i8(7), text("x")],
            "parser": lambda: [i8(8), text("evil parser"), text(rng.choice(["", "def", "x = 1", "class A(MetadataParser): pass\nclass B(MetadataParser): pass", "1/0"]), 16)],
            "exists": lambda: [i8(9), text(ds)],
            "list": lambda: [i8(10)],
            "remove": lambda: [i8(11), text(ds)],
            "property": lambda: [i8(12), text("p"), blob(len), blob(len), i8(7), i8(9), struct.pack(">d", 0), struct.pack(">d", 1), i8(1), i8(1), i8(1), i8(0)],
            "checkpoint": lambda: [i8(13), text(job), i8(0), i8(0), i8(2), i8(num()), i8(num())],
            "completed": lambda: [i8(14), text(job), text("chkpnt_9"), i8(1)],
            "restore": lambda: [i8(15), text(job), text("chkpnt_77")],
            "feedback": lambda: [i8(16), text(job), i8(3), i8(0), array([1.5, 2.5]), array([1, 2])],
        }[name]()
        return name, p

    def spoil(self, name, parts):
        """Breaks a request about the attacker's own things."""
        rng = self.rng
        kind = rng.choice(["int", "size", "utf8", "garbage-blob", "task", "swap", "tail"])
        if kind == "int" and name not in ("query", "dataset"):
            ks = [k for k, b in enumerate(parts) if len(b) == 8 and k]
            if ks:
                parts[rng.choice(ks)] = i8(rng.choice([-1, -2, 99, 2**31, 2**62, -2**63]))
        elif kind == "size":
            k = rng.randrange(len(parts))
            if len(parts[k]) > 8:
                n = 16 if parts[k][:8] == bytes(8) else 8
                parts[k] = rng.choice([(-1 % 2**63).to_bytes(n, "big"), (2**40).to_bytes(n, "big"), (-5).to_bytes(n, "big", signed=True), (len(parts[k]) + 7).to_bytes(n, "big")]) + parts[k][n:]
                if name == "query":
                    parts = parts[:k + 1]  # the sizes of jobs would be read from somewhere else
        elif kind == "utf8":
            ks = [k for k, b in enumerate(parts) if 8 < len(b) < 60]
            if ks:
                k = rng.choice(ks)
                parts[k] = parts[k][:-1] + b"\xff"
        elif kind == "garbage-blob":
            ks = [k for k, b in enumerate(parts) if len(b) >= 16 and b[:8] == bytes(8)]
            if ks:
                parts[rng.choice(ks)] = blob(b"\xff" * rng.choice([0, 1, 1000, 300000]))
        elif kind == "task":
            parts[0] = i8(rng.choice([-1, 3, 17, 2**40, -2**63]))
        elif kind == "swap" and len(parts) > 2 and name not in ("query", "dataset"):
            k = rng.randrange(1, len(parts) - 1)
            parts[k], parts[k + 1] = parts[k + 1], parts[k]
        else:
            parts.append(rng.randbytes(rng.choice([1, 8, 5000])))
        return kind, parts

    def one(self):
        rng, ctx = self.rng, self.ctx
        s = socket.socket()
        s.settimeout(20)
        try:
            s.connect(("127.0.0.1", self.port))
            ctx.count("attacks")
            kind = rng.choice(["nothing", "garbage", "cut", "cut", "cut", "spoiled", "spoiled", "fails", "fails", "abandon", "idle"])
            data, how = b"", ""
            if kind == "garbage":
                data = rng.choice([rng.randbytes(rng.choice([1, 7, 8, 100, 70000])), bytes(rng.choice([1, 8, 9, 40])), b"\xff" * 64, b"GET / HTTP/1.1\r\n\r\n"])
                if data[:8] == bytes(8):
                    data = data[:8 + 16]
                ctx.count("garbage")
            elif kind == "cut":
                how, parts = self.request(rng.choice(self.healthy + self.own[:1]))
                full = b"".join(parts)
                edges, at = [], 0
                for p in parts[:-1]:
                    at += len(p)
                    edges += [at]
                cut = rng.choice(edges or [4]) if rng.random() < 0.5 else rng.randrange(1, len(full))
                if how == "list":
                    cut = rng.randrange(1, 8)
                data = full[:cut]
                if how in ("meta", "chunk", "checkpoint", "completed"):
                    self.waiting += 1  # may wait for a job without a name
                ctx.count("cut_requests")
                ctx.count(f"cut_{how}")
            elif kind == "spoiled":
                how, parts = self.request(rng.choice(self.own))
                what, parts = self.spoil(how, parts)
                how += " " + what
                data = b"".join(parts)
                if parts[0] in (i8(5), i8(4), i8(13), i8(14)):
                    self.waiting += 1  # may wait for a job that does not exist
                ctx.count("spoiled_requests")
            elif kind == "fails":
                how, parts = self.failing()
                data = b"".join(parts)
                ctx.count("failing_requests")
            elif kind == "abandon":
                how, parts = self.request(rng.choice(self.own))
                data = b"".join(parts)
                if how in ("meta", "chunk", "checkpoint", "completed"):
                    self.waiting += 1
                ctx.count("abandoned_answers")
            self.log.append((kind, how, len(data)))
            if kind == "idle":
                if len(self.idle) < 40:
                    self.idle.append(s)
                    s = None
                return
            if rng.random() < 0.15 and data:
                ctx.count("slow_senders")
                k = rng.randrange(1, len(data) + 1)
                for x in (data[:k], data[k:k + 3], data[k + 3:]):
                    s.sendall(x)
                    srv._sleep(rng.choice([0.001, 0.01, 0.05]))
            else:
                s.sendall(data)
            if kind == "fails":
                s.settimeout(90)
                got = b""
                try:
                    while len(got) < 24:
                        b = s.recv(24 - len(got))
                        if not b:
                            break
                        got += b
                except ConnectionResetError:
                    pass  # closed with unread bytes
                ctx.check(got in (b"", i8(0)) or how in ("registers", "restores"), f"a request that fails ({how}) is answered with {got!r}", "error-not-reported")
            elif kind == "abandon" and rng.random() < 0.5:
                s.settimeout(0.01)
                try:
                    s.recv(3)
                except (socket.timeout, ConnectionError):
                    pass
            if rng.random() < 0.4:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                ctx.count("resets")
        except (BrokenPipeError, ConnectionResetError):
            pass
        finally:
            if s is not None:
                s.close()

    def failing(self):
        """Complete requests that fail on the server. Some name healthy jobs, but consumers or checkpoints that do not exist."""
        rng = self.rng
        job = rng.choice(self.healthy)
        far = rng.choice([99, 1000, 2**40])
        c = [0, 0, 0]
        c[rng.randrange(3)] = far
        return rng.choice([
            ("no consumer", [i8(5), text(job), *map(i8, c)]),
            ("negative consumer", [i8(5), text(job), i8(rng.choice([0, -1])), i8(-1), i8(0)]),
            ("no node", [i8(13), text(job), i8(far), i8(0), i8(1), i8(0)]),
            ("no node", [i8(13), text(job), i8(0), i8(far), i8(1), i8(0)]),
            ("negative node", [i8(13), text(job), i8(-1), i8(0), i8(1), i8(0)]),
            ("no checkpoint", [i8(14), text(job), text("chkpnt_99"), i8(1)]),
            ("no dataset", [i8(11), text("never there")]),
            ("no file", [i8(2), text("/nowhere/at/all")]),
            ("directory", [i8(2), text(str(self.home))]),
            ("parser", [i8(8), text("p"), text("syntax error(", 16)]),
            ("parser", [i8(8), text("p"), text("raise ValueError('x')", 16)]),
            ("feedback", [i8(16), text("never there"), i8(1), i8(0), array(None), array(None)]),
            ("job taken", [i8(0), blob(_mixture()), i8(1), i8(1), i8(1), blob(gen.build_query(job, []))]),
            ("no query", [i8(0), blob(_mixture()), i8(1), i8(1), i8(1), blob(b"\xffxx")]),
            ("no dataset type", [i8(6), text("evil"), text(str(self.home)), i8(77), blob(len), text("x")]),
            ("registers", [i8(6), text("evil " + str(rng.randrange(5))), text(str(self.home / "nothing")), i8(1), blob(len), text("no such parser")]),
            ("registers", [i8(6), text(rng.choice(self.datasets)), text(self.file), i8(1), blob(len), text("no such parser")]),
            ("registers", [i8(0), blob(None), i8(0), i8(-1), i8(1), blob(gen.build_query(f"evil-bad-{rng.randrange(3)}", [[("no such property", "==", "x")]]))]),
            ("restores", [i8(15), text(f"evil-restored-{rng.randrange(3)}"), text("chkpnt_1")]),
        ])


def _mixture():
    from mixtera.core.query.mixture import ArbitraryMixture

    return ArbitraryMixture(chunk_size=3)


def sockets(pid):
    n = 0
    for f in os.listdir(f"/proc/{pid}/fd"):
        try:
            n += os.readlink(f"/proc/{pid}/fd/{f}").startswith("socket:")
        except OSError:
            pass
    return n


def rss(pid):
    with open(f"/proc/{pid}/statm", encoding="ascii") as f:
        return int(f.read().split()[1]) * 4096


def probing(ctx, server, datasets, file, content, done):
    """A healthy client that asks about the catalogue all the time."""
    client = server.client()
    while True:
        last = done()
        try:
            got = client.list_datasets()
            ctx.check(got is not None and sorted(d for d in got if d and not d.startswith("evil")) == sorted(datasets), f"list_datasets gives {got} while other clients fail", "probe-list")
            d = datasets[0]
            ctx.check(client.check_dataset_exists(d) is True and client.check_dataset_exists("never there") is False, "check_dataset_exists is wrong while other clients fail", "probe-exists")
            lines = list(client.server_connection.get_file_iterable(file))
            ctx.check([x for x in lines if x] == content, f"a file read through the server has {len(lines)} lines instead of {len(content)}", "probe-file")
        except (RuntimeError, TimeoutError, ConnectionError) as e:
            ctx.fail(f"a valid request fails while other clients misbehave: {e!r} after {e.__context__!r}", "probe-fails", server=server.stacks())
        ctx.count("probes")
        if last:
            return
        srv._sleep(0.02)


def run_case(ctx, st, i):
    from mixtera.core.client import MixteraClient

    rng = ctx.rng
    base = ctx.dir("c")
    w = gen.World(base / "data", rng)
    spec = [gen.PropSpec("language", "STRING", False, False, ("en", "de", "fr"))]
    w.connect()
    names = [f"d{k}" for k in range(rng.choice([1, 2]))]
    for name in names:
        w.register(w.make_dataset(name, spec, [rng.choice([10, 40]) for _ in range(rng.choice([1, 2]))]))
    samples = w.samples()
    file = sorted(w.datasets[0].path.glob("*"))[0]
    content = [x for x in file.read_bytes().decode("utf-8").split("\n") if x]
    doms = [gen.domain_of(s.meta) for s in samples]
    scripts = []
    for j in range(rng.choice([1, 2, 3])):
        mix = play.random_mix(rng, doms, chunk_sizes=(2, 3, 5, 9))
        dims = rng.choice([(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 2)])
        known = len(mix.initial.parts) if mix.kind == "dynamic" and mix.initial.kind == "static" else len(set(doms))
        acts, _ = p14.job_script(rng, mix, dims, known)
        opts = {"chunk_reading_prefetch_first_sample": False, **({"tunnel_via_server": True} if rng.random() < 0.3 else {})}
        scripts.append((f"job{j}", [], mix, acts, dims, opts))
    ctx.note(jobs=[(s[0], s[2].describe(), s[4], s[5]) for s in scripts])
    w.close()
    shutil.copytree(w.home, base / "server")
    want = {}
    for job, plan, mix, acts, dims, opts in scripts:
        c = MixteraClient.from_directory(w.home)
        want[job] = p14.attempt(p14.run_job, c, job, plan, mix, acts, dims, {k: v for k, v in opts.items() if k != "tunnel_via_server"})
        c._mdc._connection.close()
    server = srv.Server(st.child, base / "server")
    try:
        server.client().list_datasets()
        before, memory = sockets(server.pid), rss(server.pid)
        got, errors = {}, []

        def guarded(fn, *args):
            try:
                fn(*args)
            except BaseException as e:  # pylint: disable=broad-except
                errors.append(e)

        def one(job, plan, mix, acts, dims, opts):
            got[job] = p14.attempt(p14.run_job, server.client(), job, plan, mix, acts, dims, opts)

        healthy = [threading.Thread(target=guarded, args=(one, *s), daemon=True) for s in scripts]
        finished = lambda: all(not t.is_alive() for t in healthy)  # noqa: E731
        evil = [Attacks(ctx, rng.__class__(rng.random()), server.port, server.home, [s[0] for s in scripts], names, str(file)) for _ in range(3)]
        # Jobs first exist, otherwise their names are free for anybody
        least = rng.choice([30, 80])

        def attacking(a):
            n = 0
            while (n < least or not finished()) and n < 1500 and not errors:
                try:
                    a.one()
                except (ConnectionRefusedError, socket.timeout) as e:
                    ctx.fail(f"the server does not react any more ({e!r}) after {a.log[-5:]}", "server-dead", server=server.stacks())
                n += 1
                srv._sleep(0.002)

        threads = list(healthy)
        for t in healthy:
            t.start()
        c = server.client()
        for s in scripts:
            c.wait_for_execution(s[0])
        threads += [threading.Thread(target=guarded, args=(attacking, a), daemon=True) for a in evil]
        attackers = threads[len(healthy):]
        threads.append(threading.Thread(target=guarded, args=(probing, ctx, server, names, str(file), content, lambda: all(not t.is_alive() for t in attackers) or bool(errors)), daemon=True))
        for t in threads[len(healthy):]:
            t.start()
        for t in threads:
            t.join()
        ctx.note(attacks=[a.log[-12:] for a in evil])
        for e in errors:
            raise e
        for a in evil:
            for s in a.idle:
                s.close()
        for s in scripts:
            p14.compare(ctx, s[0], want[s[0]], got[s[0]])
            ctx.count("jobs_compared")
        ctx.check(server.alive(), "the server process died", "server-died", log=server.log()[-2000:])
        allowed = before + sum(a.waiting for a in evil)
        t0 = time.monotonic()
        while sockets(server.pid) > allowed and time.monotonic() - t0 < 30:
            srv._sleep(0.05)
        ctx.check(sockets(server.pid) <= allowed, f"the server keeps {sockets(server.pid)} sockets open after all clients have gone (before: {before})", "socket-leak",
                  peers=[s for s in open("/proc/net/tcp", encoding="ascii").read().splitlines() if f":{server.port:04X} " in s][:40], waiting=sum(a.waiting for a in evil), server=server.stacks(),
                  fds=[os.readlink(f"/proc/{server.pid}/fd/{f}") for f in os.listdir(f"/proc/{server.pid}/fd")])
        ctx.check(rss(server.pid) < memory + 1_500_000_000, f"the server grew from {memory} to {rss(server.pid)} bytes", "memory")
        # a client that comes afterwards is served as well
        late = p14.attempt(p14.run_job, server.client(), "late", [], scripts[0][2], [("drain", 1)], (1, 1, 1), {})
        c = MixteraClient.from_directory(w.home)
        p14.compare(ctx, "late", p14.attempt(p14.run_job, c, "late", [], scripts[0][2], [("drain", 1)], (1, 1, 1), {}), late)
        c._mdc._connection.close()
        ctx.evaluated()
        ctx.distinct([s[2].describe() for s in scripts], [a.log for a in evil])
        ctx.sample(dict(jobs=[(s[0], s[2].kind, s[4]) for s in scripts], attacks=[x for a in evil for x in a.log[:4]]))
    finally:
        server.stop()
