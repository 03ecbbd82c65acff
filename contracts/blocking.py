"""what the contracts of the blocking client share: pools known by their contract (C15, C17), connections whose sendall is known by its
contract (C18) and which receive an arbitrary stream, beginning with an arbitrary frame, in arbitrary pieces"""
from .kit import *
from .server import Frame
from .client import headers, addresses, drawn, STARTUP
from pyvc.models import net

POOL = 'mysockpool.pool_manager:PoolManager.connection_pool_from_pool_key'
SENDALL = 'mysockpool.connection:SocketConnection.sendall'


class Pool(rt.Model):
    """contract of a pool: get_conn gives a usable connection or raises"""
    def __init__(self, st, key):
        self.st, self.key = st, key

    def get_conn(self, *a, **k):
        c = sym.C()
        j = c.choose(4, 'a connection can be had') if self.st.faults == 'all' else 0
        if j:
            self.st.failed.append(j)
            raise (rt.call(self.st.w('mysockpool.exceptions:ConnectionPoolFullError'), 'x') if j == 1 else OSError(111, 'x') if j == 2
                   else rt.call(self.st.w('mysockpool.exceptions:SocketValueError'), 'x'))
        c.extra['reliable'] = 'plain'
        conn = rt.call(self.st.w('mysockpool:SocketConnection'), self.key)
        c.extra['reliable'] = False
        s = [x for x in vars(conn).values() if isinstance(x, net.Sock)]
        if len(s) != 1:
            raise Unsupported('the connection does not hold exactly one socket')
        s[0]._set('pos', 0)
        f = Frame(c, z3.IntVal(0), request=False)
        c.extra.setdefault('ghosts', []).append((s[0].wire, z3.IntVal(0), f.rope))
        self.st.got.append((conn, s[0], f))
        return conn

    def put_conn(self, conn):
        self.st.put(conn, self)


class Blocking(object):
    def __init__(self, c, w, faults='all'):
        self.c, self.w, self.faults = c, w, faults
        self.got, self.puts, self.failed, self.sends = [], [], [], []
        d = c.extra.setdefault('contracts', {})
        header_contracts(c)
        headers(c, w)
        self.ids = drawn(c)
        self.addr, self.asked = addresses(c)

        def nomesh(c, f, m):
            raise OSError(111, 'x')
        d[STARTUP] = nomesh
        o = attempt(lambda: rt.call(w('anthunder:Client'), 'app'))
        c.prove(o[0] == 'ok', 'a client can be made', show(o))
        self.cl = o[1]

        def pool(c, f, mgr, key):
            h, p = rt.getattr_(key, 'host'), rt.getattr_(key, 'port')
            c.prove(core.zb(veq(h, self.addr[0])) if True else None, 'the pool is the one of the address of the interface', lambda: rep(key))
            c.prove(core.zb(veq(p, self.addr[1])), 'the pool is the one of the address of the interface (port)', lambda: rep(key))
            return Pool(self, key)
        d[POOL] = pool
        d[SENDALL] = self.sendall
        c.extra['cheap'] = True

    def sendall(self, c, f, conn, data, flags=0, timeout=None):
        """C18: all the bytes once, in order, before the timeout has passed; or an error after a prefix of them"""
        s = self.sock(conn)
        self.wait(timeout, 'sending')
        self.sends.append((conn, data, timeout))
        j = c.choose(4, 'sending works') if self.faults == 'all' else c.choose(2, 'sending works') if self.faults == 'first' and len(self.sends) == 1 else 0
        d = SymBytes.lift(data)
        if j:
            s._set('out', SymBytes.lift(SymBytes.lift(s.out) + SymBytes.atom(c.fresh('accepted', S))).low())    # any part of it
            s._set('fault', True)
            raise (rt.call(self.w('mysockpool.exceptions:SocketValueError'), 'x') if j == 1 else ConnectionResetError(104, 'x') if j == 2 else TimeoutError('x'))
        s._set('out', SymBytes.lift(SymBytes.lift(s.out) + d).low())

    def sock(self, conn):
        for x, s, f in self.got:
            if x is conn:
                return s
        raise Unsupported('a connection nobody made')

    def frame(self, conn):
        return [f for x, s, f in self.got if x is conn][0]

    def wait(self, timeout, what):
        pass

    def put(self, conn, pool):
        """a connection goes back into use: it was sent one complete request, and nothing of a response is missing or unread"""
        c = self.c
        c.prove(any(x is conn for x, s, f in self.got) and not any(x is conn for x in self.puts), 'a connection is put back once')
        self.puts.append(conn)
        s = self.sock(conn)
        c.prove(not s.closed, 'a closed connection is not put back')
        c.prove(not s.fault, 'a connection on which sending failed is not put back')
        self.settled(conn, s)

    def sent(self, conn, timeout, ptype, content):
        """the connection was sent exactly one complete request"""
        c = self.c
        s = self.sock(conn)
        mine = [x for x in self.sends if x[0] is conn]
        c.prove(len(mine) == 1, 'one request is sent on a connection', str(len(mine)))
        h = c.extra['header']
        blk = block_of(c, h)
        blk = blk[1] if isinstance(blk, tuple) else blk
        c.prove(len(self.ids) == 1, 'one request id is drawn')
        eq(c, SymBytes.lift(s.out), frame(True, 1, ptype, 1, 1, self.ids[0], 11, timeout, REQ_CLASS, blk, content), 'the complete request is sent, of the right type')
