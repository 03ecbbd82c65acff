"""shared by the server harnesses (C10-C12, C14): starts real listeners, talks raw Bolt to them"""
import logging
from lib import *
from meshfake import Mesh
import asyncio, concurrent.futures
from anthunder import AioListener, SockListener
from anthunder.exceptions import ServerError, ClientError
from anthunder.listener.base_listener import NoProcessorError
from anthunder.protocol.constants import PTYPE, CMDCODE


class Calls:
    def __init__(self):
        self.lock = threading.Lock()
        self.log = []

    def add(self, *a):
        with self.lock:
            self.log.append(a)

    def take(self):
        with self.lock:
            l, self.log = self.log, []
        return l


CALLS = Calls()
EXC = dict(value=ValueError, key=KeyError, attr=AttributeError, runtime=RuntimeError, os=OSError, eof=EOFError, reset=ConnectionResetError, stop=StopIteration, memory=MemoryError, exit=SystemExit,
           timeout=TimeoutError, atimeout=asyncio.TimeoutError, ctimeout=concurrent.futures.TimeoutError, cancel=concurrent.futures.CancelledError, acancel=asyncio.CancelledError, server=ServerError, client=ClientError, noproc=NoProcessorError)
TIMEOUTISH = ("timeout", "atimeout", "ctimeout", "cancel", "acancel")


class Svc:
    """content: 'op:arg' decides what happens"""

    def __init__(self, ctx, *a, **kw):
        CALLS.add("ctor", {k: str(v) for k, v in ctx.baggage.items()}, a, kw)
        self.ctx = ctx

    def m(self, body):
        CALLS.add("m", body)
        op, _, arg = body.partition(b":")
        if op == b"echo":
            return arg
        if op == b"none":
            return None
        if op == b"str":
            return "text"
        if op == b"int":
            return 7
        if op == b"list":
            return [1]
        if op == b"raise":
            raise EXC[arg.decode()]("x")
        if op == b"sleep":
            time.sleep(float(arg))
            return b"slept"
        return body

    def other(self, body):
        CALLS.add("other", body)
        return b"other" + body


class BadCtor:
    def __init__(self, ctx):
        CALLS.add("badctor")
        raise self.exc("ctor")


def bad(exc):
    return type("Bad", (BadCtor,), {"exc": exc})


def start(cls, register=()):
    port = free_port()
    with Mesh(lambda *a: ConnectionError("no mesh")):
        l = cls(("127.0.0.1", port), "app")
    l.handler.interface_mapping.clear()
    for reg in register:
        l.handler.register_interface(*reg)
    l.run_threading()
    for _ in range(200):
        try:
            socket.create_connection(("127.0.0.1", port), 1).close()
            break
        except OSError:
            time.sleep(0.01)
    return l, port


def dial(port):
    s = socket.create_connection(("127.0.0.1", port), 3)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def hdr(service="svc", method="m", **extra):
    h = dict(extra)
    if service is not None:
        h["sofa_head_target_service"] = service
    if method is not None:
        h["sofa_head_method_name"] = method
    return h


def anyhdr(r):
    """a header map that names service and method, in one of the ways to do so"""
    return r.choice([hdr(), hdr(), dict(hdr(), service="other"), dict(hdr(None), service="svc"), dict(hdr(""), service="svc"), dict(hdr(), service="")])


def send_frag(s, data, rng, maxcuts=5):
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(maxcuts)))
    p = 0
    for c in cuts + [len(data)]:
        if c > p:
            try:
                s.sendall(data[p:c])
            except OSError:
                return      # the other side is done with this connection
            p = c
            time.sleep(0.002)


def replies(s, n, timeout=4.0, extra=0.15):
    """collect until n frames, then `extra` seconds more; -> (frames, rest, eof)"""
    buf, eof = recv_until(s, lambda b: len(dec_frames(b, False)[0]) >= n, timeout)
    if not eof and extra:
        b2, eof = recv_until(s, lambda b: False, extra)
        buf += b2
    fs, rest = dec_frames(buf, False)
    return fs, rest, eof
