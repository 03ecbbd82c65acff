"""C08: the asyncio client sends each request over a live connection, with retries.

invoke and the sending of a request are verified against the contract of _get_connection, and _get_connection against what other
tasks may do to the connections meanwhile (rely/guarantee, see client.py)."""
from .client import *

RECV = 'anthunder.client.aio_client:AioClient._recv_response'


class Pairs(object):
    """connection_mapping as one task sees it: the entry of its own address, and entries of other addresses"""
    def __init__(self, c, cl, addr):
        self.c, self.cl, self.addr = c, cl, addr
        self.map = rt.getattr_(cl, 'connection_mapping')
        self.map._set('segs', [])
        self.now = None             # the pair mapped for the address, as far as this task left it
        self.failed = ()
        self.rest = None
        self.others()

    def others(self):
        m, K, V, n = sym_map('connections', key='val', val='val')
        self.rest = m.segs[0]
        self.map._set('segs', ([('e', self.addr, self.now)] if self.now is not None else []) + [self.rest])

    def mapped(self):
        p = [s for s in self.map.segs if s[0] == 'e' and core.zb(veq(s[1], self.addr)) is not False]
        return p[0][2] if p else None

    def guarantee(self, when, added=None):
        """connections of other addresses are left alone; the own one is removed only when sending failed on it"""
        c = self.c
        c.prove(rt.getattr_(self.cl, 'connection_mapping') is self.map, '%s: the client keeps its connections' % when)
        own = [s for s in self.map.segs if s[0] == 'e']
        rest = [s for s in self.map.segs if s[0] == 'b']
        c.prove(all(c.entails(core.zb(veq(s[1], self.addr))) for s in own) and len(rest) == 1 and rest[0][1].keyfn is self.rest[1].keyfn
                and not rest[0][1].over and not rest[0][1].removed, '%s: the connections of other addresses are left alone' % when, lambda: rep(self.map))
        p = self.mapped()
        if p is self.now:
            return
        if p is None:
            c.prove(self.now in self.failed, '%s: a connection is dropped only when sending on it failed' % when)
        else:
            c.prove(added is not None and self.now is None and added(p), '%s: a connection is added only where there is none, freshly dialled' % when, lambda: rep(p))
        self.now = p

    def step(self, lock_held=False):
        """other tasks: drop the connection of the address, or put a newly dialled one (never one that failed)"""
        c = self.c
        j = c.choose(2 if lock_held else 3, 'others change the connection')
        if j == 1:
            self.now = None
        elif j == 2:
            self.now = (aio.Task(None), aio.StreamWriter())
        self.others()


# ---------------------------------------------------------------- sending

class Sending(Call):
    """a call that also watches what is sent; others may change the connection while a send waits"""
    def __init__(self, c, w, cl, r, interfere, **kw):
        Call.__init__(self, c, w, cl, r, **kw)
        self.pairs = Pairs(c, cl, self.addr)
        self.interfere = interfere
        self.got = []
        self.refused = False
        self.done = False
        c.extra['contracts'][GETCONN] = self.connection

    def connection(self, c, f, cl, address):
        """contract of _get_connection: the connection mapped for the address, possibly dialled just now, or an error"""
        def go():
            c.prove(core.zb(veq(address, self.addr)), 'the connection is asked for the address of the interface', lambda: rep(address))
            self.note()
            aio.suspend('connection', address)
            if c.choose(2, 'a connection is there') == 1:
                self.refused = True
                raise OSError(111, 'x')
            p = self.pairs
            if p.now is None or (self.once() and c.choose(2, 'the mapped connection was replaced meanwhile') == 1):
                p.now = (aio.Task(None), aio.StreamWriter())
                p.others()
            c.prove(p.now not in p.failed, 'a connection on which sending failed is not used again')
            self.got.append(p.now)
            return p.now
        return aio.Aw(go)

    def once(self):
        """other tasks may interfere, at any one of the points where this one waits"""
        if not self.interfere or self.done or self.c.choose(2, 'others interfere now') == 0:
            return False
        self.done = True
        return True

    def note(self):
        p = self.pairs
        p.failed = tuple([x for x in self.got if x[1].broken])
        return p

    def suspend(self, what, *a):
        self.note().guarantee('waiting for ' + what)
        if self.interfere and what in self.interfere and self.got and self.once():
            self.pairs.step()
        Call.suspend(self, what, *a)


def sends(c, w, call, k):
    o, p = call.o, call.note()
    p.guarantee('at the end')
    r = call.request
    data = attempt(lambda: rt.callm(r, 'to_stream'))
    if data[0] == 'err':
        c.cover('not encodable')
        c.prove(not call.got and o[0] == 'err', 'a request that cannot be encoded touches no connection', show(o))
        return
    c.prove(len(call.got) <= 3, 'at most three attempts', str(len(call.got)))
    for i, (task, wr) in enumerate(call.got):
        c.prove(not any(x[1] is wr for x in call.got[:i]), 'every retry is on another connection')
        c.prove(len(wr.writes) <= 1, 'a request is written at most once per attempt', str(len(wr.writes)))
        if wr.writes:
            c.prove(core.zb(SymBytes.lift(wr.writes[0]) == SymBytes.lift(data[1])), 'the complete encoded request is written', lambda: rep(wr.writes))
        if wr.broken:
            c.prove(p.now is None or p.now[1] is not wr, 'a connection on which sending failed is dropped')
            c.prove(task.stopped or wr.closed, 'a connection on which sending failed is closed')
            c.cover('failed %d' % (i + 1))
        else:
            c.prove(i == len(call.got) - 1, 'there is no retry after a successful send')
            c.prove(len(wr.writes) == 1 or o[0] == 'err', 'a request is written by a successful send')
            c.prove(not task.stopped and not wr.closed and not wr.eof, 'a live connection is kept open')
    if call.got and not call.got[-1][1].broken:
        c.prove(len(call.got[-1][1].writes) == 1, 'the request is written on the live connection')
        c.cover('sent')
    elif len(call.got) < 3:
        c.prove(call.refused, 'a failed attempt is retried', show(o))


def sending(c, interfere, k=None, kinds=('ok',), when=('event',)):
    w = World(c)
    cl = client(c, w)
    c.extra['write_fails'] = interfere != ('drain',)
    k, r = request(c, w, k)
    call = Sending(c, w, cl, r, interfere, kinds=kinds, when=when)
    call.run(**(dict(address=call.addr) if k == 'heartbeat' else {}))
    sends(c, w, call, k)


@goal('C08', 'a request is written completely, once per attempt, at most three times', covers=('failed 1', 'failed 2', 'failed 3', 'sent', 'not encodable'), parallel=True)
def alone(c):
    sending(c, ())


@goal('C08', 'a failing connection is dropped, one that replaced it is not', covers=('failed 1', 'failed 2', 'failed 3', 'sent'), parallel=True)
def interfered(c):
    sending(c, ('drain',), ('call', 'oneway')[c.pick(2)])


# ---------------------------------------------------------------- connections

class Dialling(Pairs):
    """_get_connection among other tasks that do the same"""
    def __init__(self, c, cl, addr):
        Pairs.__init__(self, c, cl, addr)
        self.locks = rt.getattr_(cl, '_pending_dial')
        if c.choose(2, 'a connection is mapped') == 0:
            self.now = (aio.Task(None), aio.StreamWriter())
            self.others()
        self.lock = aio.Lock() if c.choose(2, 'the address has a lock') == 0 else None
        self.havoc_locks()
        self.dials = []

    def havoc_locks(self):
        m, K, V, n = sym_map('locks', key='val', val='val')
        self.otherlocks = m.segs[0]
        self.locks._set('segs', ([('e', self.addr, self.lock)] if self.lock is not None else []) + [self.otherlocks])

    def ownlock(self):
        p = [s for s in self.locks.segs if s[0] == 'e' and core.zb(veq(s[1], self.addr)) is not False]
        return p[0][2] if p else None

    def added(self, p):
        """guarantee for an added connection: this task dialled it, holding the lock of the address, and started its receiver"""
        c = self.c
        if not (isinstance(p, (tuple, PList)) and len(self.dials) == 1):
            return False
        task, wr = list(p.vals()) if isinstance(p, PList) else list(p)
        a, r, w0 = self.dials[0]
        return wr is w0 and isinstance(task, aio.Task) and getattr(task.coro, 'streams', None) == (r, w0)

    def check(self, when):
        c = self.c
        self.guarantee(when, self.added)
        l = self.ownlock()
        b = [s for s in self.locks.segs if s[0] == 'b']
        c.prove(rt.getattr_(self.cl, '_pending_dial') is self.locks and len(b) == 1 and b[0][1].keyfn is self.otherlocks[1].keyfn and not b[0][1].over and not b[0][1].removed,
                '%s: the locks of other addresses are left alone' % when)
        c.prove(self.lock is None or l is self.lock, '%s: the lock of an address stays the same' % when)
        self.lock = l

    def suspend(self, what, *a):
        c = self.c
        self.check('waiting for ' + what)
        # others add a connection only while they hold the lock of the address
        self.step(lock_held=self.lock is not None and self.lock.held)
        if self.lock is None and c.choose(2, 'others make a lock') == 1:
            self.lock = aio.Lock()
        self.havoc_locks()

    def dial(self, address):
        c = self.c
        c.prove(core.zb(veq(address, self.addr)), 'the address asked for is dialled', lambda: rep(address))
        l = self.ownlock()
        c.prove(l is not None and l.held, 'an address is dialled only while its lock is held')
        c.prove(self.mapped() is None, 'an address with a live connection is not dialled')
        c.prove(not self.dials and not c.extra.get('dialling'), 'an address is dialled once')
        c.extra['dialling'] = True


@goal('C08', '_get_connection: reuses the live connection, dials only under the lock when there is none', covers=('reused', 'dialled', 'refused', 'cancelled', 'waited'))
def connection(c):
    w = World(c)
    cl = client(c, w)
    addr = (text(c, 'host'), integer(c, 'port', 0, 65535))
    d = Dialling(c, cl, addr)

    def recv(c, f, cl_, reader, writer):
        a = aio.Aw(lambda: None)
        a.streams = (reader, writer)
        return a
    c.extra.setdefault('contracts', {})[RECV] = recv
    c.extra['on_suspend'] = d.suspend
    c.extra['on_dial'] = d.dial
    c.extra['on_dialled'] = lambda a, r, wr: d.dials.append((a, r, wr))
    c.extra['cancellable'] = True
    c.extra['cheap'] = True
    o = attempt_co(lambda: rt.callm(cl, '_get_connection', addr))
    d.check('at the end')
    c.prove(d.lock is None or not d.lock.held, 'the lock is released')
    if any(e[0] == 'suspend' and e[1] == 'lock' for e in c.trace):
        c.cover('waited')
    if o[0] == 'ok':
        c.cover('dialled' if d.dials else 'reused')
        c.prove(d.mapped() is not None and o[1] is d.mapped(), 'what is returned is the connection mapped for the address', show(o))
    else:
        c.cover('cancelled' if c.extra.get('cancelled') else 'refused')
        c.prove(c.extra.get('cancelled') or any(e[0] == 'refused' for e in c.trace), 'only a refused connection is an error', show(o))
        c.prove(not d.dials, 'a connection that was made is not lost', show(o))
