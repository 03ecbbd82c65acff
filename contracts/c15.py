"""C15: the connection pool.

Interleavings are handled by ownership: the counter may only be changed while the pool's lock is held (checked at every write),
other threads may change the counter, the idle queue and the open/closed state arbitrarily whenever this thread does not hold the
lock, as long as they keep the invariant

    pool open  ==>  counted == idle + (connections held by callers) <= maximum.

Each operation is then proved to keep it: its own change of the counter equals its own change of the idle queue plus the change
of what its caller holds (proved for every operation from an arbitrary state, so the invariant holds under any interleaving)."""
from .kit import *
from pyvc.containers import Mut
from pyvc.models import net, base
import queue as real_queue

KNOWN = 'topup-failure-loses-connection'


class G(Mut):
    """ghost state of one operation"""
    def __init__(self):
        for k, v in dict(N=None, dN=0, didle=0, closed=False, seen=False, full=False, drained=False, mine=False, conns=[], shared=False).items():
            object.__setattr__(self, k, v)


class ConnModel(rt.Model, Mut):
    g = None

    @classmethod
    def validate_pool_key(cls, k):
        pass

    def __init__(self, key=None, *a, **kw):
        c = core.CUR
        object.__setattr__(self, 'state', 'new')
        object.__setattr__(self, 'closed', 0)
        object.__setattr__(self, 'key', key)
        object.__setattr__(self, 'checked', False)
        k = c.choose(3, 'connection class raises')
        if k:
            raise (OSError if k == 1 else ValueError)('cannot connect')     # ValueError: host names that cannot be encoded
        c.extra['reliable'] = True
        self.sock = net.Sock()
        c.extra['reliable'] = False
        self.g.conns.append(self)

    def close(self):
        c = core.CUR
        c.prove(self.state != 'idle', 'a connection that is still pooled is not closed')
        self._set('closed', self.closed + 1)

    def fileno(self):
        return self.sock.fileno()


def setup(c, construct=None):
    w = World(c)
    g = G()
    locks = []

    def lock_hook(l, what):
        if l not in locks:
            locks.append(l)
        if g.shared:
            if what == 'acquire' and l.held == 1:
                n = c.fresh('counted', I)
                c.assume(z3.And(n >= 0, n <= g.max))
                g._set('N', mkint(n))
                g._set('seen', False)
            elif what == 'release' and l.held == 1:
                g._set('N', None)
                g._set('seen', False)
    c.extra['lock_hook'] = lock_hook
    held = lambda: any(l.held > 0 for l in locks)
    CP = w('mysockpool.connection_pool:ConnectionPool')

    class Conn(ConnModel):
        pass
    Conn.g = g

    class Queue(rt.Model, Mut):
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            g.queues = getattr(g, 'queues', 0) + 1

        def put(self, x, block=True, timeout=None):
            if g.shared:
                c.prove(held(), 'a connection is only put into the queue while the lock is held and the pool is open')
                c.prove(g.seen and not g.closed, 'a connection is only put into the queue after seeing the pool open under the lock')
                c.prove(not block, 'giving a connection back does not block')
                if c.choose(2, 'room in the queue') == 1:
                    g._set('full', True)
                    raise real_queue.Full()
            c.prove(isinstance(x, ConnModel), 'only connections are pooled')
            c.prove(x.state in ('new', 'taken', 'held') and not x.closed, 'only live connections that are not pooled yet are pooled', x.state)
            x._set('state', 'idle')
            g._set('didle', g.didle + 1)

        def put_nowait(self, x):
            return self.put(x, False)

        def get(self, block=True, timeout=None):
            if block and timeout is None:
                k = 0
            else:
                k = c.choose(2, 'a connection is idle')
            if k == 1:
                g._set('drained', True)
                raise real_queue.Empty()
            x = Conn.__new__(Conn)
            for a, v in dict(state='taken', closed=0, key='pooled', checked=False).items():
                object.__setattr__(x, a, v)
            x.sock = None
            if c.choose(2, 'socket of the pooled connection') == 0:
                c.extra['reliable'] = True
                x.sock = net.Sock()
                c.extra['reliable'] = False
            g.conns.append(x)
            g._set('didle', g.didle - 1)
            return x

        def get_nowait(self):
            return self.get(False)

        def qsize(self):
            n = c.fresh('qsize', I)
            c.assume(n >= 0)
            return mkint(n)

        def empty(self):
            return c.choose(2, 'empty') == 1

        def full(self):
            if c.choose(2, 'full') == 1:
                g._set('full', True)
                return True
            return False

    cfg = dict(max_connections=integer(c, 'max_connections', 0), max_free_connections=integer(c, 'max_free_connections', 0),
               min_free_connections=integer(c, 'min_free_connections', 0), block=c.pick(2, 'block') == 1, initial_connections=0)
    if construct is not None:
        cfg['initial_connections'] = construct
    g.max = zi(cfg['max_connections'])
    g.cfg = cfg
    P0 = type('P0', (CP,), dict(ConnectionCls=Conn, QueueCls=Queue))
    P0.__module__ = CP.__module__
    probe = rt.call(P0, 'key', **dict(cfg, initial_connections=0))
    names = [k for k, v in vars(probe).items() if isinstance(v, Queue)]
    ints = [k for k, v in vars(probe).items() if isinstance(v, (int, SymInt)) and k == 'num_connections']
    if len(names) != 1 or len(ints) != 1:
        raise Unsupported('the pool does not hold exactly one queue and a counter')

    def get_n(self):
        if not g.shared or g.N is not None:
            return g.N
        return mkint(c.fresh('stale_count', I))

    def set_n(self, v):
        if not g.shared:
            g._set('N', v)
            c.prove(zi(v) <= g.max if not (isinstance(v, int) and v == 0) else True, 'never more connections counted than the maximum')
            return
        c.prove(held() and g.N is not None, 'the counter is only changed while the lock is held')
        c.prove(zi(v) <= g.max, 'never more connections counted than the maximum')
        g._set('dN', g.dN + v - g.N)
        g._set('N', v)

    def get_q(self):
        q = self.__dict__.get('q!')
        if q is None or not g.shared:
            return q
        if g.closed:
            return None
        if held() and g.seen:
            return q
        if held():
            g._set('seen', True)
        if c.choose(2, 'another thread has closed the pool') == 1:
            g._set('closed', True)
            return None
        return q

    def set_q(self, v):
        if g.shared and not isinstance(v, Queue):
            c.prove(held(), 'the pool is closed under the lock')
            if not g.closed:
                g._set('mine', True)
            g._set('closed', True)
        self.__dict__['q!'] = v
    P = type('P', (CP,), dict(ConnectionCls=Conn, QueueCls=Queue, num_connections=property(get_n, set_n), **{names[0]: property(get_q, set_q)}))
    P.__module__ = CP.__module__
    g.qname = names[0]
    del g.conns[:]
    g._set('N', 0)
    o = attempt(lambda: rt.call(P, 'key', **cfg))
    if construct is None:
        c.prove(o[0] == 'ok', 'an empty pool can be made', show(o))
        pool = o[1]
        g._set('shared', True)
        g._set('N', None)
        g._set('didle', 0)
        del g.conns[:]
        return w, g, pool, Conn, Queue, held
    return w, g, o, Conn, Queue, held


def settle(c, g, held, delta, result=None, known=False):
    """the invariant is kept; no connection is lost or used twice"""
    c.prove(not held(), 'the lock is released')
    for x in g.conns:
        if x is result:
            continue
        if known and x.state == 'taken' and not x.closed:
            continue        # the recorded finding
        c.prove(x.state == 'idle' or x.closed == 1, 'a connection not handed out is idle in the pool or closed, once', '%s %s' % (x.state, x.closed))
        c.prove(not (x.state == 'idle' and x.closed), 'no closed connection is pooled')
    if not g.closed and not known:
        c.prove(zi(g.dN) == zi(g.didle) + delta, 'while the pool is open every counted connection is idle or held', 'counter %s, idle %s, held %s' % (g.dN, g.didle, delta))


@goal('C15', 'get_conn: a usable connection, counted and handed out once', covers=('pooled', 'fresh', 'empty', 'closed', 'dropped'))
def get_conn(c):
    w, g, pool, Conn, Queue, held = setup(c)
    asked = []
    kw = {}
    if c.pick(2, 'timeout given') == 1:
        t = z3.Const('timeout', R)
        c.assume(t >= 0)
        kw['timeout'] = SymReal(t)
    o = attempt(lambda: rt.callm(pool, 'get_conn', **kw))
    taken = [x for x in g.conns if x.key == 'pooled']
    known = False
    selects = [e for e in c.trace if e[0] == 'select']

    def state(x):
        """(checked, dropped) of a pooled connection as the system reported it"""
        if x.sock is None:
            return True, True
        for e in selects:
            for s, ev in e[1].vals():
                if s is x.sock and ev & 1 and (isinstance(e[2], (int, float)) and e[2] == 0):
                    return True, bool(e[3])
        refused = any(s is x.sock for s in c.extra.get('refused', ()))
        return refused, refused
    def checked(x):
        return x.checked or any(s is x.sock for e in selects for s, ev in e[1].vals()) or any(s is x.sock for s in c.extra.get('refused', ()))
    if o[0] == 'ok':
        x = o[1]
        c.prove(isinstance(x, ConnModel) and x in g.conns, 'a connection is handed out', show(o))
        c.prove(x.state in ('new', 'taken') and not x.closed, 'the connection handed out is live and not pooled any more', '%s %s' % (x.state, x.closed))
        if x in taken:
            ch, dr = state(x)
            c.prove(ch and not dr, 'a pooled connection is handed out only after it was found not dropped')
            c.cover('pooled')
        else:
            c.prove(x.key == 'key', 'new connections are made for the key of the pool')
            c.cover('fresh')
        settle(c, g, held, 1, x)
    else:
        w_ = w('mysockpool.exceptions')
        e = o[1]
        if isinstance(e, w_.ClosedPoolError):
            c.cover('closed')
            c.prove(g.closed, 'the closed-pool error only from a closed pool', show(o))
        elif isinstance(e, w_.EmptyPoolError):
            c.cover('empty')
        else:
            c.prove(isinstance(e, (OSError, ValueError)), 'other errors come from the connection class', show(o))
        # the recorded finding: the connection taken is lost when the top-up of the minimum of free connections fails
        known = len(taken) == 1 and taken[0].state == 'taken' and not taken[0].closed and not isinstance(e, w_.ClosedPoolError) and not checked(taken[0])
        if known:
            c.sess.assumptions.add('known finding %s: paths of get_conn on which the top-up after taking a pooled connection fails are exempt' % KNOWN)
        settle(c, g, held, 0, known=known)
    for x in taken:
        ch, dr = state(x)
        if dr and (o[0] == 'ok' or not known):
            c.cover('dropped')
            c.prove(x.closed == 1 and x is not o[1], 'a connection found dropped is closed and not handed out')


@goal('C15', 'get_conn on a closed pool raises the closed-pool error', covers=('refused',))
def get_closed(c):
    w, g, pool, Conn, Queue, held = setup(c)
    o = attempt(lambda: rt.callm(pool, 'close'))
    if o[0] == 'err':
        c.prove(False, 'close succeeds', show(o))
    o = attempt(lambda: rt.callm(pool, 'get_conn'))
    isexc(c, o, (w('mysockpool.exceptions:ClosedPoolError'),), 'getting from a closed pool raises the closed-pool error')
    c.cover('refused')


@goal('C15', 'put_conn: kept if there is room, otherwise closed and uncounted', covers=('kept', 'full', 'closed'))
def put_conn(c):
    w, g, pool, Conn, Queue, held = setup(c)
    x = Conn.__new__(Conn)
    for a, v in dict(state='held', closed=0, key='held', checked=False).items():
        object.__setattr__(x, a, v)
    x.sock = None
    o = attempt(lambda: rt.callm(pool, 'put_conn', x))
    c.prove(o[0] == 'ok', 'a connection can always be given back', show(o))
    c.prove(not g.conns, 'giving back takes and makes no connection')
    if g.closed:
        c.cover('closed')
        c.prove(x.closed == 1 and x.state == 'held', 'a connection given back to a closed pool is closed', '%s %s' % (x.state, x.closed))
        c.prove(not held(), 'the lock is released')
    elif x.state == 'idle':
        c.cover('kept')
        c.prove(not x.closed, 'a connection kept is not closed')
        settle(c, g, held, -1)
    else:
        c.cover('full')
        c.prove(g.full, 'a connection is only discarded if there is no room')
        c.prove(x.closed == 1, 'a connection discarded is closed')
        settle(c, g, held, -1)


@goal('C15', 'close: every idle connection is closed, closing again is harmless', covers=('closed', 'again'))
def close(c):
    w, g, pool, Conn, Queue, held = setup(c)
    how = c.pick(2, 'close or context manager')
    if how == 0:
        run = lambda: rt.callm(pool, 'close')
    else:
        run = lambda: rt.callm(pool, '__exit__', None, None, None)

    n0 = {}

    def backedge(loop, seg):
        for x in g.conns[n0.get(id(loop), 0):]:
            c.prove(x.closed == 1, 'close: every connection taken from the queue is closed')
    c.extra['loop_head'] = lambda loop: n0.__setitem__(id(loop), len(g.conns))
    c.extra['loop_backedge'] = backedge
    before = g.closed
    o = attempt(run)
    c.prove(o[0] == 'ok', 'close succeeds', show(o))
    if how == 1:
        c.prove(not o[1], 'the context manager passes exceptions on')
    c.prove(g.closed, 'the pool is closed afterwards')
    c.prove(not held(), 'the lock is released')
    for x in g.conns:
        c.prove(x.closed == 1, 'close: every connection taken from the queue is closed')
    if not g.mine:
        # another thread closed it before (and empties it)
        c.cover('again')
        c.prove(not g.conns, 'closing a closed pool touches nothing')
    else:
        c.cover('closed')
        c.prove(g.drained, 'the queue is emptied')
    n = len(g.conns)
    o = attempt(lambda: rt.callm(pool, 'close'))
    c.prove(o[0] == 'ok', 'closing again is harmless', show(o))
    c.prove(len(g.conns) == n, 'closing again takes nothing')


@goal('C15', 'construction: the initial connections are counted and idle', covers=('made', 'refused'))
def construct(c):
    init = integer(c, 'initial_connections', 0)
    w, g, o, Conn, Queue, held = setup(c, init)
    if o[0] == 'err':
        c.cover('refused')
        c.prove(isinstance(o[1], (w('mysockpool.exceptions:EmptyPoolError'), OSError, ValueError)), 'construction fails only if connections cannot be made', show(o))
        return
    c.cover('made')
    n = zi(g.N)
    c.prove(n == zi(g.didle), 'every counted connection is idle in a new pool')
    c.prove(n <= g.max, 'never more connections counted than the maximum')
    c.prove(n == zi(init), 'as many connections as asked for')
