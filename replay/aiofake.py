"""Scripted connections for the asyncio client: real StreamReaders, recording writers, no sockets."""
import asyncio, inspect, threading, time
from unittest import mock
import requests
from lib import *
from meshfake import Mesh
from anthunder.client.aio_client import AioClient
from anthunder import SERVICE_MAP
from mytracer import SpanContext


class Writer:
    """records what is written; `on_frame(conn, frame)` is called for every complete request frame"""
    def __init__(self, net, addr, n):
        self.net, self.addr, self.n = net, addr, n
        self.buf = b""
        self.frames = []
        self._rest = b""
        self.closed = False
        self.drains = 0
        self.reader = None
        self.loop = None
        self.queue, self.pumping = [], False
        self.failed = False
        self.used_after_failure = False

    # -- StreamWriter
    def write(self, data):
        if self.failed:
            self.used_after_failure = True
        a = self.net.on_write(self, data)
        if isinstance(a, BaseException):
            self.failed = True
            raise a
        self.buf += bytes(data)
        self._rest += bytes(data)
        fs, self._rest = dec_frames(self._rest, True)
        for f in fs:
            self.frames.append(f)
            self.net.frames.append((self, f))
            self.net.on_frame(self, f)

    def writelines(self, l):
        for d in l:
            self.write(d)

    async def drain(self):
        self.drains += 1
        if self.failed:
            self.used_after_failure = True
        a = self.net.on_drain(self)
        if inspect.isawaitable(a):
            a = await a
        if isinstance(a, BaseException):
            self.failed = True
            raise a

    def close(self):
        if not self.closed:
            self.closed = True
            if self.reader and not self.reader.at_eof():
                try:
                    self.reader.feed_eof()
                except Exception:
                    pass

    def is_closing(self):
        return self.closed

    async def wait_closed(self):
        return

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def get_extra_info(self, *a, **kw):
        return a[1] if len(a) > 1 else kw.get("default")

    @property
    def transport(self):
        return self

    def abort(self):
        self.close()

    # -- the server's side (callable from any thread); what is fed arrives in the order fed
    def feed(self, data, chunks=None):
        ps, p = [], 0
        for k in chunks or [len(data)]:
            if p < len(data):
                ps.append(data[p:p + k])
                p += k
        if p < len(data):
            ps.append(data[p:])
        self.feed_slowly(ps, None)

    def feed_slowly(self, pieces, gap=0.0):
        async def pump():
            while self.queue:
                p, g = self.queue.pop(0)
                if callable(p):
                    p()
                else:
                    self.reader.feed_data(p)
                if g is not None:
                    await asyncio.sleep(g)
            self.pumping = False

        def f():
            self.queue += [(p, gap) for p in pieces]
            if not self.pumping:
                self.pumping = True
                self.loop.create_task(pump())
        self.loop.call_soon_threadsafe(f)

    def feed_eof(self, exc=None):
        self.feed_slowly([lambda: self.reader.set_exception(exc) if exc else self.reader.feed_eof()], None)


class Net:
    """replaces asyncio.open_connection"""
    def __init__(self):
        self.conns = []
        self.frames = []
        self.dials = []
        self.dialing = {}
        self.concurrent = []
        self.on_frame = lambda conn, f: None
        self.on_drain = lambda conn: None
        self.on_write = lambda conn, data: None
        self.on_dial = lambda addr, n: None

    async def open_connection(self, host=None, port=None, **kw):
        addr = (host, port)
        n = len(self.dials)
        self.dials.append(addr)
        self.dialing[addr] = self.dialing.get(addr, 0) + 1
        self.concurrent.append(self.dialing[addr])
        try:
            a = self.on_dial(addr, n)
            if inspect.isawaitable(a):
                a = await a
            if isinstance(a, BaseException):
                raise a
        finally:
            self.dialing[addr] -= 1
        w = Writer(self, addr, n)
        w.loop = asyncio.get_running_loop()
        w.reader = asyncio.StreamReader()
        self.conns.append(w)
        return w.reader, w

    def __enter__(self):
        self.p = mock.patch.object(asyncio, "open_connection", self.open_connection)
        self.p.start()
        return self

    def __exit__(self, *a):
        self.p.stop()


def client():
    with Mesh(lambda *a: requests.ConnectionError("no mesh")):
        return AioClient("app")


def on_loop(c, coro, timeout=5):
    return asyncio.run_coroutine_threadsafe(coro, c._loop).result(timeout)


def settle(c, n=5):
    """let the client's loop run through its ready callbacks"""
    async def f():
        for _ in range(n):
            await asyncio.sleep(0)
    on_loop(c, f())


def wait_until(cond, timeout=3):
    end = time.time() + timeout
    while not cond():
        if time.time() > end:
            return False
        time.sleep(0.002)
    return True


def records(c):
    """request ids the client keeps a record of"""
    return sorted(set(getattr(c, "request_mapping", {})) | set(getattr(c, "response_mapping", {})))


def done(fs, timeout=5):
    end = time.time() + timeout
    for f in fs:
        while not f.done() and time.time() < end:
            time.sleep(0.002)
    return all(f.done() for f in fs)


def outcome(f):
    """('ok', content) or ('error', exception)"""
    try:
        return "ok", f.result(0).content
    except BaseException as e:
        return "error", e
