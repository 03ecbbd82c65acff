"""asyncio and concurrent.futures.

One coroutine is verified at a time, against arbitrary other tasks: it runs straight on, and wherever it hands control to the
event loop (`suspend`) the contract's hook `on_suspend(what, *info)` replaces the shared state by what other tasks may have
made of it.  A task may be cancelled at such a point when the contract says so (`cancellable`)."""
import asyncio, concurrent.futures as cf
import z3
from .. import core, sym, rt
from ..core import Unsupported, Internal
from ..sym import C, I, S, R, SymInt, SymReal, SymBytes, Rope, Slc, mkint, zi
from ..containers import PList, PDict, Opaque, Mut
from ..rt import Model
from ..world import NS


def suspend(what, *info):
    c = C()
    c.event('suspend', what, info)
    h = c.extra.get('on_suspend')
    if h:
        h(what, *info)
    k = c.extra.get('cancellable')
    if k and (k is True or what in k) and c.choose(2, 'cancelled while waiting for ' + what) == 1:
        c.extra['cancelled'] = True
        raise asyncio.CancelledError()


class Aw(Model):
    """an awaitable: f does the waiting and gives the result"""
    def __init__(self, f, what=''):
        self.f_ = f
        self.what = what

    def __await__(self):
        r = self.f_()
        if hasattr(r, '__next__'):
            r = yield from r
        return r
        yield


class Event(Model):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        C().event('set', self)

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self):
        def f():
            if not self.flag:
                suspend('event', self)
                if not self.flag:
                    C().end()           # waits forever
            return True
        return Aw(f)


class Lock(Model):
    """free, or held by another task first"""
    def __init__(self):
        self.held = False

    def acquire(self):
        def f():
            if self.held:
                raise Unsupported('deadlock: an asyncio lock is taken again by its holder')
            if C().choose(2, 'the lock is free') == 1:
                suspend('lock', self)
            self.held = True
            h = C().extra.get('on_alock')
            if h:
                h(self, 'acquire')
            return True
        return Aw(f)

    def release(self):
        if not self.held:
            raise RuntimeError('Lock is not acquired.')
        h = C().extra.get('on_alock')
        if h:
            h(self, 'release')
        self.held = False

    def locked(self):
        return self.held

    def __aenter__(self):
        return self.acquire()

    def __aexit__(self, *a):
        def f():
            self.release()
        return Aw(f)


class Task(Model):
    """a task that was started; what it does counts among the other tasks"""
    def __init__(self, coro):
        self.coro = coro
        self.stopped = False
        C().extra.setdefault('tasks', []).append(self)

    def cancel(self, msg=None):
        self.stopped = True
        C().event('cancel', self)
        return True

    def add_done_callback(self, f, context=None):
        pass


def ensure_future(coro, loop=None):
    if isinstance(coro, (Task, CFut, AFut)):
        return coro
    t = Task(coro)
    C().event('spawn', t)
    h = C().extra.get('on_spawn')
    if h:
        h(t)
    return t


class CFut(Model):
    """a concurrent future; outcome: None while it runs, or ('ok', value) / ('err', exception)"""
    def __init__(self, coro=None, outcome=None):
        self.coro = coro
        self.outcome = outcome
        self.callbacks = ()

    def result(self, timeout=None):
        c = C()
        c.event('result', self, timeout)
        h = c.extra.get('on_result')
        o = h(self, timeout) if h else self.outcome
        if o is None:
            raise Unsupported('the result of a future that is not described')
        if o[0] == 'err':
            raise o[1]
        return o[1]

    def exception(self, timeout=None):
        try:
            self.result(timeout)
        except Internal:
            raise
        except (asyncio.CancelledError, cf.CancelledError):
            raise
        except Exception as e:
            return e
        return None

    def add_done_callback(self, f):
        self.callbacks = self.callbacks + (f,)

    def cancel(self):
        C().event('cancel', self)
        return True

    def done(self):
        return self.outcome is not None

    def cancelled(self):
        return self.outcome is not None and self.outcome[0] == 'err' and isinstance(self.outcome[1], (cf.CancelledError, asyncio.CancelledError))


class AFut(Model):
    """asyncio.wrap_future"""
    def __init__(self, f):
        self.f_ = f

    def __await__(self):
        suspend('future', self.f_)
        o = self.f_.outcome
        if o is None:
            raise Unsupported('awaiting a future that is not described')
        if o[0] == 'err':
            e = o[1]
            if isinstance(e, StopIteration):
                C().prove(False, 'no StopIteration is handed to an asyncio future (it would never complete)')
            if type(e) is cf.CancelledError:
                raise asyncio.CancelledError(*e.args)
            raise e
        return o[1]
        yield


def wrap_future(f, *, loop=None):
    return f if isinstance(f, AFut) else AFut(f)


def wait_for(aw, timeout):
    def f():
        c = C()
        c.event('wait_for', aw, timeout)
        if timeout is not None and c.choose(2, 'the time is up') == 1:
            if asyncio.iscoroutine(aw):
                aw.close()
            suspend('timeout')
            raise asyncio.TimeoutError()
        r = yield from aw.__await__()
        return r
    return Aw(f)


def shield(aw):
    return aw


def sleep(t, result=None):
    def f():
        C().event('sleep', t)
        suspend('sleep', t)
        return result
    return Aw(f)


def run_coroutine_threadsafe(coro, loop):
    f = CFut(coro)
    c = C()
    c.event('submit', f)
    c.extra.setdefault('submitted', []).append(f)
    h = c.extra.get('on_submit')
    if h:
        h(f)
    return f


# ---------------------------------------------------------------- streams

class StreamReader(Model):
    """wire: everything the peer will ever send, arbitrary; pos: how many of its bytes were read"""
    def __init__(self, *a, **k):
        c = C()
        self.wire = z3.Const(c.name('wire'), S)
        self.pos = 0
        self.broken = None
        self.ghost = None

    def describe(self, p0, rope):
        """ghost: what the stream holds from p0 on (as far as it goes)"""
        object.__setattr__(self, 'ghost', (p0, rope))

    def piece(self, lo, hi):
        if self.ghost is not None:
            p0, r = self.ghost
            return SymBytes.lift(r.cut(z3.simplify(lo - p0), z3.simplify(hi - p0))).low()
        return SymBytes((Slc(self.wire, z3.simplify(lo), z3.simplify(hi)),)).low()

    def readexactly(self, n):
        def f():
            c = C()
            z = zi(n)
            if c.decide(z < 0, 'negative size'):
                raise ValueError('readexactly size can not be less than zero')
            L = z3.Length(self.wire)
            p = zi(self.pos)
            c.assume(z3.And(p >= 0, p <= L))
            if z3.is_int_value(z3.simplify(z)) and z3.simplify(z).as_long() == 0 and not c.extra.get('reset_on_empty'):
                return b''
            suspend('read', self)
            if not c.extra.get('no_reset') and c.choose(2, 'the connection is reset') == 1:
                self.broken = 'reset'
                raise ConnectionResetError('Connection lost')
            if not c.decide(p + z <= L, 'enough bytes arrive'):
                part = self.piece(p, L) if self.ghost is None else SymBytes.atom(z3.Const(c.name('partial'), S))
                self.pos = mkint(L)
                self.broken = 'eof'
                raise asyncio.IncompleteReadError(part, n)
            self.pos = mkint(z3.simplify(p + z))
            h = c.extra.get('on_read')
            if h:
                h(self, p, z)
            return self.piece(p, p + z)
        return Aw(f)

    def read(self, n=-1):
        raise Unsupported('StreamReader.read')
    readline = readuntil = read

    def at_eof(self):
        raise Unsupported('at_eof')


class StreamWriter(Model):
    """writes: what was handed over, in order; a write or drain may find the connection broken"""
    def __init__(self, *a, **k):
        self.writes = ()
        self.closed = False
        self.eof = False
        self.broken = False

    def write(self, data):
        c = C()
        if isinstance(data, rt.SymBuf):
            data = data.v
        if not isinstance(data, (bytes, bytearray, memoryview, SymBytes)):
            raise TypeError('data argument must be a bytes-like object, not %r' % type(data).__name__)
        if self.eof:
            raise RuntimeError('Cannot call write() after write_eof()')
        if c.extra.get('write_fails') and c.choose(2, 'write fails') == 1:
            self.broken = True
            raise RuntimeError('the transport is gone')
        self.writes = self.writes + (data,)
        c.event('write', self, data)
        h = c.extra.get('on_write')
        if h:
            h(self, data)

    def writelines(self, l):
        r = SymBytes()
        for x in rt.to_plist(l).vals():
            r = SymBytes.lift(r + SymBytes.lift(x))
        self.write(r.low())

    def drain(self):
        def f():
            c = C()
            suspend('drain', self)
            if not c.extra.get('drain_ok') and c.choose(2, 'the connection is found broken') == 1:
                self.broken = True
                raise ConnectionResetError('Connection lost')
        return Aw(f)

    def write_eof(self):
        c = C()
        if c.extra.get('write_fails') and c.choose(2, 'write_eof fails') == 1:
            raise OSError('not connected')
        self.eof = True

    def can_write_eof(self):
        return True

    def close(self):
        self.closed = True
        C().event('close', self)

    def is_closing(self):
        return self.closed

    def wait_closed(self):
        return Aw(lambda: suspend('closing', self))

    def get_extra_info(self, name, default=None):
        return default


def open_connection(host=None, port=None, **k):
    def f():
        c = C()
        h = c.extra.get('on_dial')
        if h:
            h((host, port))
        suspend('dial', (host, port))
        if c.choose(2, 'the peer accepts') == 1:
            c.event('refused', (host, port))
            raise ConnectionRefusedError('Connect call failed')
        r, w = StreamReader(), StreamWriter()
        c.event('dialled', (host, port), r, w)
        h = c.extra.get('on_dialled')
        if h:
            h((host, port), r, w)
        return r, w
    return Aw(f)


class Server(Model):
    def close(self):
        self.closed = True
    def wait_closed(self):
        return Aw(lambda: None)


def start_server(cb, host=None, port=None, **k):
    def f():
        C().event('server', cb, host, port)
        return Server()
    return Aw(f)


class Loop(Model):
    def run_forever(self):
        pass
    def run_until_complete(self, aw):
        def go():
            r = yield from aw.__await__()
            return r
        g = go()
        try:
            g.send(None)
        except StopIteration as e:
            return e.value
        raise Unsupported('a coroutine suspended in the model')
    def is_running(self):
        return True
    def create_task(self, coro):
        return ensure_future(coro)
    def call_soon_threadsafe(self, f, *a):
        raise Unsupported('call_soon_threadsafe')


class ThreadPoolExecutor(Model):
    """runs what is submitted once, in another thread; the outcome, whatever it is, becomes the future's"""
    def __init__(self, max_workers=None, *a, **k):
        self.max_workers = max_workers

    def submit(self, fn, *a, **k):
        f = CFut()
        C().event('work', f)
        try:
            f.outcome = ('ok', rt.call(fn, *a, **k))
        except Internal:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError, RecursionError, GeneratorExit)):
                raise
            f.outcome = ('err', e)
        return f

    def shutdown(self, wait=True):
        pass


def install(world, m):
    m['asyncio'] = NS('asyncio', CancelledError=asyncio.CancelledError, TimeoutError=asyncio.TimeoutError, IncompleteReadError=asyncio.IncompleteReadError,
                      InvalidStateError=asyncio.InvalidStateError,
                      Event=Event, Lock=Lock, ensure_future=ensure_future, create_task=ensure_future, wrap_future=wrap_future, wait_for=wait_for, sleep=sleep,
                      shield=shield, run_coroutine_threadsafe=run_coroutine_threadsafe, open_connection=open_connection, start_server=start_server,
                      new_event_loop=Loop, set_event_loop=lambda l: None, get_event_loop=Loop, get_running_loop=Loop, StreamReader=StreamReader, StreamWriter=StreamWriter, Future=CFut, Task=Task)
    f = NS('concurrent.futures', TimeoutError=cf.TimeoutError, CancelledError=cf.CancelledError, ThreadPoolExecutor=ThreadPoolExecutor, Future=CFut)
    m['concurrent.futures'] = f
    m['concurrent'] = NS('concurrent', futures=f)
