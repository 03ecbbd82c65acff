"""sockets, selectors, socketserver, queue"""
import z3
from .. import core, sym, rt
from ..core import Unsupported, Internal
from ..sym import C, I, S, R, SymInt, SymBool, SymStr, SymBytes, SymReal, SymEnum, SymNum, Rope, Lit, Slc, mkint, mkreal, zi, zr
from ..containers import PList, PDict, Opaque, is_symbolic, Mut
from ..rt import Model
from ..world import NS
from .base import assume


# ---------------------------------------------------------------- host identity

def gethostname():
    c = C()
    if 'hostname' not in c.extra:
        c.extra['hostname'] = SymStr.atom(z3.Const('hostname', S))
    return c.extra['hostname']


U_HOSTIP = sym.guf('hostip', S, S)
U_IPNUM = sym.guf('ipnum', S, I)


def gethostbyname(h):
    assume("the host's own name resolves to an IPv4 address (socket.gethostbyname(socket.gethostname()) does not fail)")
    return SymStr.atom(U_HOSTIP(SymStr.lift(h).term()))


class IPAddress(Model):
    def __init__(self, t):
        self.t_ = t
    def __int__(self):
        raise Unsupported('int of an address')
    def __pyvc_int__(self):
        n = U_IPNUM(self.t_)
        C().describe(n, z3.And(n >= 0, n < 2 ** 32))
        return mkint(n)


def ip_address(x):
    if isinstance(x, SymStr):
        return IPAddress(x.term())
    import ipaddress
    return ipaddress.ip_address(x)


def getpid():
    c = C()
    t = z3.Const('pid', I)
    c.describe(t, t >= 1)
    return mkint(t)


# ---------------------------------------------------------------- sockets

class Sock(Model, Mut):
    """a stream socket.  Ghost state: `out` = the bytes handed over so far, in order; `pos` = how many bytes of the peer's
    stream `wire` (everything it will ever send before closing, arbitrary) were read; `ready` = set by the selector"""
    def __init__(self, *a, **k):
        c = C()
        self._set('out', b'')
        self._set('pos', z3.IntVal(0))
        self._set('closed', False)
        self._set('fault', False)       # the system reported an error
        self._set('wire', z3.Const(c.name('wire'), S))
        self._set('flags', None)
        self._set('waits', ())
        self.blocking = True
        c.extra.setdefault('socks', []).append(self)
        h = c.extra.get('new_socket')
        if h:
            h(self)

    def faulty(self, what):
        c = C()
        if c.extra.get('reliable'):
            return
        if c.choose(2, 'the system reports an error in ' + what) == 1:
            self._set('fault', True)
            raise ConnectionResetError(what)

    def use(self):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')

    def setblocking(self, b):
        self.blocking = b

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        self.faulty('setsockopt') if False else None

    def connect(self, addr):
        h = C().extra.get('on_connect')
        if h:
            h(self, addr)
        C().event('connect', self, addr)
        if C().extra.get('reliable') != 'plain' and C().choose(2, 'connect in progress') == 1:
            raise BlockingIOError(115, 'Operation now in progress')

    def fileno(self):
        return -1 if self.closed else 7

    def close(self):
        self._set('closed', True)
        C().event('close', self)

    def shutdown(self, how):
        self.use()

    def send(self, data, flags=0):
        """hands over the first m bytes, 1 <= m <= len(data) (0 for no data)"""
        c = C()
        self.use()
        self.faulty('send')
        if isinstance(data, rt.SymBuf):
            data = data.v
        d = SymBytes.lift(data)
        if d is None:
            raise TypeError('a bytes-like object is required')
        n = d.zlen()
        m = c.fresh('accepted', I)
        c.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m >= 1)))
        self._set('out', SymBytes.lift(SymBytes.lift(self.out) + SymBytes.lift(d[:mkint(m)])).low())
        self._set('flags', flags)
        h = c.extra.get('on_send')
        if h:
            h(self, d, m)
        return mkint(m)

    def sendall(self, data, flags=0):
        c = C()
        self.use()
        d = SymBytes.lift(data.v if isinstance(data, rt.SymBuf) else data)
        if c.choose(2, 'sendall is complete') == 1:
            m = c.fresh('accepted', I)
            c.assume(z3.And(m >= 0, m <= d.zlen()))
            self._set('out', SymBytes.lift(SymBytes.lift(self.out) + SymBytes.lift(d[:mkint(m)])).low())
            self._set('fault', True)
            raise ConnectionResetError('sendall')
        self._set('out', SymBytes.lift(SymBytes.lift(self.out) + d).low())

    def zpos(self):
        return zi(self.pos)

    def recv(self, n, flags=0):
        """the next 1..n bytes of the stream; nothing exactly when the stream has ended (or n is 0)"""
        c = C()
        self.use()
        self.faulty('recv')
        z = zi(n)
        if c.decide(z < 0, 'negative size'):
            raise ValueError('negative buffersize in recv')
        L = z3.Length(self.wire)
        p = self.zpos()
        c.assume(z3.And(p >= 0, p <= L))
        if not c.decide(z3.And(p < L, z > 0), 'bytes arrive'):
            return b''
        m = c.fresh('arrived', I)
        c.assume(z3.And(m >= 1, m <= z, p + m <= L))
        self._set('pos', mkint(z3.simplify(p + m)))
        return SymBytes((Slc(self.wire, z3.simplify(p), z3.simplify(p + m)),)).low()

    def recv_into(self, *a):
        raise Unsupported('recv_into')

    def getsockname(self):
        return ('127.0.0.1', 1)

    getpeername = getsockname


class Mask(Model):
    """an arbitrary set of events"""
    def __init__(self, r, w):
        self.r, self.w = r, w
    def __and__(self, e):
        if e == 1:
            t = self.r
        elif e == 2:
            t = self.w
        else:
            raise Unsupported('event mask')
        return sym.mkbool(t)
    __rand__ = __and__
    def __eq__(self, e):
        if e == 1:
            return sym.mkbool(z3.And(self.r, z3.Not(self.w)))
        if e == 2:
            return sym.mkbool(z3.And(self.w, z3.Not(self.r)))
        raise Unsupported('event mask')
    __hash__ = None


class Key(object):
    def __init__(self, fileobj):
        self.fileobj = fileobj
        self.fd = 7


class DefaultSelector(Model, Mut):
    """select() reports, for any number of the registered objects in any order, some of the events asked for (and possibly others)"""
    def __init__(self):
        self._set('regs', PList())
        self.open = True
        C().extra.setdefault('selectors', []).append(self)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.open = False
        return False
    def close(self):
        self.open = False
    def register(self, fileobj, events, data=None):
        c = C()
        h = c.extra.get('on_register')
        if h:
            h(self, fileobj, events)
        if isinstance(fileobj, Sock) and fileobj.closed:
            raise ValueError('Invalid file descriptor: -1')
        if not c.extra.get('reliable') and c.choose(2, 'register') == 1:
            raise ValueError('Invalid file object')
        self.regs.append((fileobj, events))
        return Key(fileobj)
    def unregister(self, fileobj):
        return Key(fileobj)
    def select(self, timeout=None):
        c = C()
        h = c.extra.get('on_select')
        if h:
            return h(self, timeout)
        if not self.regs.concrete():
            raise Unsupported('select on a symbolic list')
        out = []
        some = False
        for fo, ev in self.regs.vals():
            forced = timeout is None and not some and fo is self.regs.vals()[-1][0]
            if forced or c.choose(2, 'ready') == 0:
                some = True
                r = z3.BoolVal(True) if ev & 1 else z3.BoolVal(False)
                w = z3.BoolVal(True) if ev & 2 else z3.BoolVal(False)
                out.append((Key(fo), Mask(r, w)))
        c.event('select', self.regs, timeout, out)
        return PList.of(out)


class RFile(Model, Mut):
    """socketserver's rfile: read(n) returns 1..n bytes, nothing exactly at the end of the stream (or for n = 0)"""
    def __init__(self, sock):
        self.sock = sock
        self.broken = None

    def read(self, n=-1):
        c = C()
        z = zi(n)
        if c.decide(z < 0, 'negative size'):
            raise Unsupported('reading to the end of the stream')
        L = z3.Length(self.sock.wire)
        p = self.sock.zpos()
        c.assume(z3.And(p >= 0, p <= L))
        if c.decide(z == 0, 'no bytes wanted'):
            return b''
        if not c.extra.get('no_reset') and c.choose(3, 'the connection is reset'):
            self._set('broken', 'reset')
            raise ConnectionResetError(104, 'x') if c.labels[-1][1] == 1 else TimeoutError(110, 'x')
        if not c.decide(p < L, 'bytes arrive'):
            self._set('broken', 'eof')
            return b''
        m = c.fresh('arrived', I)
        c.assume(z3.And(m >= 1, m <= z, p + m <= L))
        self.sock._set('pos', mkint(z3.simplify(p + m)))
        return SymBytes((Slc(self.sock.wire, z3.simplify(p), z3.simplify(p + m)),)).low()

    def readline(self, *a):
        raise Unsupported('rfile.readline')
    readinto = readlines = read1 = readline


class WFile(Model, Mut):
    """socketserver's unbuffered wfile"""
    def __init__(self):
        self._set('writes', ())
        self._set('broken', False)

    def write(self, data):
        c = C()
        if isinstance(data, rt.SymBuf):
            data = data.v
        if not isinstance(data, (bytes, bytearray, memoryview, SymBytes)):
            raise TypeError('a bytes-like object is required, not %r' % type(data).__name__)
        j = 0 if c.extra.get('drain_ok') else c.choose(3, 'write fails')
        if j:
            self._set('broken', True)
            raise ConnectionResetError(104, 'x') if j == 1 else BrokenPipeError(32, 'x')
        self._set('writes', self.writes + (data,))
        return len(data) if isinstance(data, bytes) else mkint(SymBytes.lift(data).zlen())

    def flush(self):
        pass


class BaseRequestHandler(object):
    """socketserver.BaseRequestHandler: constructing it handles the request"""
    def __init__(self, request, client_address, server):
        self.request, self.client_address, self.server = request, client_address, server
        rt.callm(self, 'setup')
        try:
            rt.callm(self, 'handle')
        except Internal:
            raise
        except BaseException:
            rt.callm(self, 'finish')
            raise
        rt.callm(self, 'finish')

    def setup(self):
        pass
    handle = finish = setup


class StreamRequestHandler(BaseRequestHandler):
    rbufsize = -1
    wbufsize = 0
    timeout = None

    def setup(self):
        self.connection = self.request
        self.rfile, self.wfile = C().extra['rfile'], C().extra['wfile']


class ThreadingTCPServer(object):
    def __init__(self, address, handler):
        self.server_address, self.RequestHandlerClass = address, handler
        C().event('listen', address, handler)

    def serve_forever(self, *a):
        pass
    shutdown = server_close = serve_forever


def install(world, m):
    import socket, selectors, socketserver
    m['socket'] = NS('socket', AF_INET=2, SOCK_STREAM=1, SOL_SOCKET=1, SO_KEEPALIVE=9, IPPROTO_TCP=6, TCP_NODELAY=1, timeout=socket.timeout, error=OSError,
                     gethostname=gethostname, gethostbyname=gethostbyname, socket=Sock)
    import ipaddress, os
    m['ipaddress'] = NS('ipaddress', ip_address=ip_address, _real=ipaddress)
    m['os'] = NS('os', getpid=getpid, _real=os)
    m['selectors'] = NS('selectors', DefaultSelector=DefaultSelector, EVENT_READ=1, EVENT_WRITE=2)
    m['socketserver'] = NS('socketserver', BaseRequestHandler=BaseRequestHandler, StreamRequestHandler=StreamRequestHandler, ThreadingTCPServer=ThreadingTCPServer)
