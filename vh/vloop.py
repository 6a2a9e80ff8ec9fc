"""An event loop with virtual time (delays pass at once) and an in-memory stream transport that fragments, delays and cuts."""
import asyncio
import selectors


class _Selector(selectors.DefaultSelector):
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if ready or timeout is None or timeout <= 0:
            return ready if ready or timeout is not None else super().select(None)
        self.loop.offset += timeout
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        sel = _Selector()
        sel.loop = self
        self.offset = 0.0
        super().__init__(sel)

    def time(self):
        return 1000.0 + self.offset


class Sink(asyncio.Transport):
    """Collects what a StreamWriter writes; asks the writer to pause now and then."""

    def __init__(self):
        super().__init__()
        self.data, self.writes = bytearray(), 0

    def write(self, data):
        self.writes += 1
        self.data += bytes(data)

    def is_closing(self):
        return False

    def close(self):
        pass

    def get_write_buffer_size(self):
        return 0


def writer_for(loop, sink):
    reader = asyncio.StreamReader(loop=loop)
    protocol = asyncio.StreamReaderProtocol(reader, loop=loop)
    protocol.connection_made(sink)
    return asyncio.StreamWriter(sink, protocol, reader, loop)


def run(coro_fn):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro_fn(loop))
    finally:
        tasks = asyncio.all_tasks(loop)
        for t in tasks:
            t.cancel()
        if tasks:
            loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
        loop.close()
        asyncio.set_event_loop(None)
