"""P13: network messages arrive whole, unchanged and in order."""
import asyncio
import math
import random

from vh import vloop

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: history checker (sent = received, in order) over a transport that fragments, coalesces, delays and cuts at every byte"
NOTE = ("held on the executed message sequences: random mixes of all value kinds written with the helpers, read back over random and one-byte fragmentations with "
        "virtual-time delays; connections cut at every byte position of short sequences and at sampled ones of long sequences; real loopback sockets as well")
RULE = ("an evaluation is one transfer of a sequence of messages (complete, or cut at one byte position) judged value by value; distinct by the values, the "
        "fragmentation and the cut; non-trivial: at least two messages or a cut inside a message")
ASSUMPTIONS = ["an empty bytes object is written like None (documented encoding)", "object arrays are refused by the sender",
               "reading stops at the first error or missing message, as callers do"]
CASES = {"quick": 60, "thorough": 2000}
BUDGET = {"quick": 60, "thorough": 600}
SHARDS = {"quick": 4, "thorough": 8}
NATIVE = False
MUST_OBSERVE = ["messages", "cuts", "cuts_reported", "delayed_transfers", "timeouts_reported", "one_byte_transfers", "socket_transfers"]
MIN_EVALUATIONS = {"quick": 2000, "thorough": 40000}


def setup(ctx):
    from vh.boot import boot

    boot()


class Obj:
    """A user object sent by pickling."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return type(self) is type(other) and same(self.v, other.v)


def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and a.tobytes() == b.tobytes())
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def random_array(rng):
    import numpy as np

    dt = rng.choice(["float32", "float64", "int64", "int32", "uint8", "bool", ">f4", "complex64", "U5", "S3", "datetime64[s]"])
    shape = rng.choice([(), (0,), (1,), (7,), (3, 0), (2, 3), (2, 3, 4), (300,)])
    n = int(np.prod(shape)) if shape else 1
    a = np.frombuffer(rng.randbytes(n * np.dtype(dt).itemsize), dtype="uint8") if dt not in ("U5", "bool", "datetime64[s]") else None
    if a is not None:
        a = a.view(dt).reshape(shape)
    elif dt == "U5":
        a = np.array([rng.choice(["", "ab", "é中"]) for _ in range(n)], dtype=dt).reshape(shape)
    else:
        a = np.array([rng.randrange(2) for _ in range(n)]).astype(dt).reshape(shape)
    if a.ndim >= 2 and rng.random() < 0.4:
        a = rng.choice([np.asfortranarray(a), a.T, a[::-1]])
    elif a.ndim == 1 and a.size > 3 and rng.random() < 0.3:
        a = a[::2]
    return a


def random_text(rng, big):
    k = rng.randrange(6)
    if k == 0:
        return ""
    if k == 1:
        return "é中😀\u2028\x00\n" * rng.randrange(1, 5)
    if k == 2 and big:
        return rng.choice("ab中") * rng.choice([1000, 65536, 70001])
    return "".join(chr(rng.randrange(32, 1000)) for _ in range(rng.randrange(20)))


def random_object(rng, depth=0):
    k = rng.randrange(8)
    if k == 0:
        return None
    if k == 1:
        return rng.randrange(-10**12, 10**12)
    if k == 2:
        return random_text(rng, False)
    if k == 3 and depth < 3:
        return [random_object(rng, depth + 1) for _ in range(rng.randrange(4))]
    if k == 4 and depth < 3:
        return {str(i): rng.randrange(9) for i in range(rng.randrange(5))}
    if k == 5 and depth < 3:
        return Obj(random_object(rng, depth + 1))
    if k == 6:
        return (1, "a", b"\x00\xff")
    return rng.random()


def random_message(rng, big=True):
    """(kind, value, parameters)"""
    kind = rng.choice(["int", "int", "str", "str", "bytes", "obj", "float", "array"])
    size = rng.choice([4, 8, 16])
    if kind == "int":
        nb = rng.choice([1, 2, 4, 8, 16])
        lim = 1 << (8 * nb - 1)
        return kind, rng.choice([0, 1, -1, lim - 1, -lim, rng.randrange(-lim, lim)]), (nb,)
    if kind == "str":
        return kind, random_text(rng, big), (size,)
    if kind == "bytes":
        v = rng.choice([None, b"\x00", rng.randbytes(rng.randrange(1, 40)), rng.randbytes(70000) if big else b"abc"])
        return kind, v, (size,)
    if kind == "obj":
        return kind, random_object(rng), (size,)
    if kind == "float":
        return kind, rng.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, rng.random(), -1e308]), ()
    return kind, (None if rng.random() < 0.2 else random_array(rng)), (rng.choice([1, 8]), size)


async def send(msg, writer, drain):
    from mixtera.network import network_utils as nu

    kind, v, p = msg
    if kind == "int":
        await nu.write_int(v, p[0], writer, drain=drain)
    elif kind == "str":
        await nu.write_utf8_string(v, p[0], writer, drain=drain)
    elif kind == "bytes":
        await nu.write_bytes_obj(v, p[0], writer, drain=drain)
    elif kind == "obj":
        await nu.write_pickeled_object(v, p[0], writer, drain=drain)
    elif kind == "float":
        await nu.write_float(v, writer, drain=drain)
    else:
        await nu.write_numpy_array(v, p[0], p[1], writer, drain=drain)


async def receive(msg, reader):
    from mixtera.network import network_utils as nu

    kind, _, p = msg
    if kind == "int":
        return await nu.read_int(p[0], reader)
    if kind == "str":
        return await nu.read_utf8_string(p[0], reader)
    if kind == "bytes":
        return await nu.read_bytes_obj(p[0], reader)
    if kind == "obj":
        return await nu.read_pickeled_object(p[0], reader)
    if kind == "float":
        return await nu.read_float(reader)
    return await nu.read_numpy_array(p[0], p[1], reader)


async def encode(loop, msgs, rng):
    """The bytes of the messages and where each ends."""
    sink = vloop.Sink()
    w = vloop.writer_for(loop, sink)
    ends = []
    for m in msgs:
        await send(m, w, rng.random() < 0.5)
        ends.append(len(sink.data))
    return bytes(sink.data), ends


def fragments(rng, data, how):
    if how == "whole":
        return [data]
    if how == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    top = rng.choice([3, 20, 5000])
    while i < len(data):
        n = rng.randrange(1, top)
        out.append(data[i:i + n])
        i += n
    return out


async def transfer(loop, msgs, frags, delays, eof):
    """Feeds the fragments; returns the received values up to the first error: [(value)] and the error."""
    reader = asyncio.StreamReader(loop=loop, limit=2**16)

    async def feed():
        for f, d in zip(frags, delays):
            if d is not None:
                await asyncio.sleep(d)
            reader.feed_data(f)
        if eof:
            reader.feed_eof()

    task = loop.create_task(feed())
    got, err = [], None
    for m in msgs:
        try:
            got.append(await receive(m, reader))
        except (Exception, asyncio.TimeoutError) as e:  # pylint: disable=broad-except
            err = e
            break
        if got[-1] is None and m[1] is not None:
            break  # no message: callers give up here
    task.cancel()
    return got, err


def describe(m):
    return (m[0], repr(m[1])[:60], m[2])


def judge_values(ctx, msgs, got, what):
    for n, (m, v) in enumerate(zip(msgs, got)):
        ctx.check(same(m[1], v), f"message {n} ({m[0]}) arrived as another value {what}", "different-value", sent=repr(m[1])[:300], received=repr(v)[:300],
                  kinds=[x[0] for x in msgs])


def run_case(ctx, st, i):
    rng = ctx.rng
    big = rng.random() < 0.3
    msgs = [random_message(rng, big) for _ in range(rng.choice([1, 2, 3, 5, 9]))]
    ctx.note(messages=[describe(m) for m in msgs])
    data, ends = vloop.run(lambda loop: encode(loop, msgs, random.Random(i)))
    d2, _ = vloop.run(lambda loop: encode(loop, msgs, random.Random(i + 1)))
    ctx.check(data == d2 or any(m[0] == "obj" for m in msgs), "draining or not changes the bytes", "drain-matters")
    # complete transfers
    for how in ("whole", "bytes", "random", "random"):
        if how == "bytes" and len(data) > 3000:
            continue
        frags = fragments(rng, data, how)
        mode = rng.choice(["none", "yield", "slow"])
        # one helper call waits at most 10 s per read, so the delays of a whole transfer stay below
        delays = [None if mode == "none" else (0 if mode == "yield" else rng.choice([0, 1e-5, 9.0]) / len(frags)) for _ in frags]
        got, err = vloop.run(lambda loop: transfer(loop, msgs, frags, delays, rng.random() < 0.5))
        ctx.check(err is None and len(got) == len(msgs), f"transfer failed ({how} fragments, {mode} delays): {type(err).__name__}: {err}", "transfer-fails",
                  received=len(got))
        judge_values(ctx, msgs, got, f"({how} fragments, {mode} delays)")
        ctx.evaluated()
        ctx.count("messages", len(got))
        ctx.count("delayed_transfers" if mode == "slow" else "undelayed_transfers")
        if how == "bytes":
            ctx.count("one_byte_transfers")
        if len(msgs) > 1:
            ctx.distinct(i, how, mode, len(frags))
    # cuts
    cuts = range(len(data)) if len(data) <= (120 if ctx.quick else 700) else sorted(
        {rng.randrange(len(data)) for _ in range(60)} | {min(max(0, e + d), len(data) - 1) for e in ends[:-1] for d in (-1, 0, 1)} | {0, 1, len(data) - 1})
    for cut in cuts:
        part = data[:cut]
        whole = sum(1 for e in ends if e <= cut)  # messages completely inside
        frags = fragments(rng, part, rng.choice(["whole", "random"])) if part else []
        got, err = vloop.run(lambda loop: transfer(loop, msgs, frags, [None] * len(frags), True))
        judge_values(ctx, msgs[:whole], got[:whole], f"(connection cut after byte {cut})")
        ctx.check(len(got) >= whole, f"message {len(got)} was complete but not received (cut after byte {cut})", "lost-message", error=repr(err))
        rest = got[whole:]
        # a message that was not sent completely: an error or None, and nothing after it
        ctx.check(err is not None or not rest or rest[0] is None, f"a cut message was received as a value (cut after byte {cut})", "cut-as-value",
                  received=repr(rest[:1])[:200], message=describe(msgs[whole]))
        if whole < len(msgs) and msgs[whole][1] is not None or err is not None:
            ctx.count("cuts_reported")
        ctx.count("cuts")
        ctx.evaluated()
        ctx.distinct(i, "cut", cut)
    # a transport that stalls longer than the timeout, cut or not
    if len(data) > 1:
        cut = rng.randrange(1, len(data))
        whole = sum(1 for e in ends if e <= cut)
        got, err = vloop.run(lambda loop: transfer(loop, msgs, [data[:cut], data[cut:]], [None, 100000.0], False))
        judge_values(ctx, msgs, got, "(stalled transport)")
        ctx.check(err is not None, "a stalled transport is not reported", "stall-unreported", received=len(got), complete=whole)
        ctx.count("timeouts_reported")
        ctx.evaluated()
    # real sockets
    if i % 6 == 0:
        asyncio.run(over_socket(ctx, msgs, rng, data))
    ctx.sample(dict(messages=[describe(m) for m in msgs], bytes=len(data)))


async def over_socket(ctx, msgs, rng, data):
    got = {}

    async def serve(reader, writer):
        key = int.from_bytes(await reader.readexactly(2), "big")
        res = []
        try:
            for m in msgs:
                res.append(await receive(m, reader))
                await asyncio.sleep(0)
        finally:
            got[key] = res
            writer.close()

    server = await asyncio.start_server(serve, "127.0.0.1", 0)
    port = server.sockets[0].getsockname()[1]

    async def client(key):
        r, w = await asyncio.open_connection("127.0.0.1", port)
        w.write(key.to_bytes(2, "big"))
        for m in msgs:
            await send(m, w, rng.random() < 0.5)
            if rng.random() < 0.5:
                await asyncio.sleep(0)
        await w.drain()
        await asyncio.wait_for(r.read(), 60)
        w.close()

    n = 4
    await asyncio.gather(*[client(k) for k in range(n)])
    server.close()
    for k in range(n):
        ctx.check(len(got.get(k, [])) == len(msgs), "messages were lost over a socket", "socket-loss", received=len(got.get(k, [])))
        judge_values(ctx, msgs, got[k], "(loopback socket, concurrent connections)")
        ctx.evaluated()
        ctx.count("socket_transfers")
        ctx.count("messages", len(msgs))
