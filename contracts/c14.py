"""C14: the blocking server answers one arbitrary frame, received in arbitrary pieces, correctly and always terminates."""
from .server import *
from .c10 import few, named
from pyvc.models import net


def handling(c, w, check, outcomes, factories=None):
    header_contracts(c)
    tr = tracing(c, w)
    c.extra['posts'] = []
    o = attempt(lambda: rt.call(w('anthunder:SockListener'), ('127.0.0.1', 12200), 'app'))
    c.prove(o[0] == 'ok', 'a listener can be made', show(o))
    l = o[1]
    reg = Registry(c, w, rt.getattr_(l, 'handler'), outcomes, factories)
    sock = net.Sock()
    sock._set('pos', 0)
    f = Frame(c, z3.IntVal(0))
    c.extra['ghosts'] = [(sock.wire, z3.IntVal(0), f.rope)]
    rfile, wfile = c.extra['rfile'], c.extra['wfile'] = net.RFile(sock), net.WFile()
    c.extra['cheap'] = True
    st = dict(tr=tr, reg=reg, failed=False)

    def head(loop):
        loop.m0 = sock.zpos()

    def backedge(loop, seg):
        c.prove(sock.zpos() > loop.m0, 'every round of waiting for more bytes gets some')
    c.extra['loop_head'], c.extra['loop_backedge'] = head, backedge
    hs = [e[2] for e in c.trace if e[0] == 'listen']
    c.prove(len(hs) == 1, 'one server is made')
    st['o'] = attempt(lambda: rt.call(hs[0], sock, ('127.0.0.1', 2), None))
    check(c, st, f, wfile.writes, rfile, wfile, sock)


def answer(c, st, f):
    """-> (kind, the reply demanded; None = anything but a success reply)"""
    reg, tr = st['reg'], st['tr']
    h = f.header()
    if h == 'undecided' or h is None:
        if h is None and f.heartbeat():
            return 'undecodable', None, True
        return 'undecodable', None, False
    if f.heartbeat():
        return 'heartbeat', heartbeat(f.rid), False
    if c.decide(f.cmd != 1, 'wrong command') or not c.decide(core.zb(veq(f.cls, REQ_CLASS)), 'class name'):
        return 'rejected', None, False
    s = f.service(h)
    m = f.method(h) if s is not None else None
    if s is None or m is None:
        return 'nameless', fail(f.rid, 'CLIENT_SEND_ERROR'), False
    st['s'], st['m'] = s, m
    if tr.get('invalid'):
        return 'context', None, False
    if reg.registered(s) is None or reg.missing:
        return 'unregistered', None, False
    if reg.setup is not None:
        return 'setup', None, False
    if reg.outcome is None:
        return 'uncalled', None, False
    k, v = reg.outcome
    if k == 'err':
        return 'raised', None, False
    if c.decide(f.ptype == 2, 'one-way'):
        return 'oneway', None, False
    if not isinstance(v, (bytes, SymBytes)):
        return 'unusable', None, False
    if not c.decide(f.ptype == 1, 'two-way'):
        return 'odd type', success(f.rid, v), True
    return 'served', success(f.rid, v), False


def replies(c, st, f, writes, rfile, wfile, sock):
    o = st['o']
    c.prove(o[0] == 'ok' or isinstance(o[1], (Exception, asyncio.CancelledError, SystemExit)), 'handling ends', show(o))
    complete = sock.zpos() == f.end
    if rfile.broken is not None:
        c.cover('incomplete')
        c.prove(not writes, 'no reply when the frame is not complete', lambda: rep(writes))
        if rfile.broken == 'eof':
            c.prove(z3.Length(sock.wire) < f.end, 'reading ends early only when the peer closed inside the frame')
            c.prove(o[0] == 'ok' or isinstance(o[1], Exception), 'handling ends', show(o))
        return
    kind, want, lenient = answer(c, st, f)
    c.cover(kind)
    if kind in ('uncalled',):
        c.prove(False, 'a request that names a registered method calls it', show(o))
    if lenient:
        # anything but a success reply of another content
        c.prove(len(writes) <= 1, '%s: at most one reply' % kind)
        return
    if want is None:
        for x in writes:
            x = SymBytes.lift(x)
            c.prove(z3.Or(*[core.zb(x == fail(f.rid, s)) for s in FAILS]), '%s: no success reply' % kind, lambda: rep(x))
        c.prove(len(writes) <= 1, '%s: at most one reply' % kind)
    else:
        c.prove(complete, '%s: the whole frame was read' % kind)
        if not wfile.broken:
            c.prove(len(writes) == 1, '%s: exactly one reply' % kind, '%d replies' % len(writes))
        c.prove(len(writes) <= 1, '%s: at most one reply' % kind)
        for x in writes:
            eq(c, SymBytes.lift(x), want, '%s: the right reply' % kind)
    reg = st['reg']
    if kind in ('raised', 'oneway', 'served', 'unusable', 'setup'):
        reg.executed(kind, st['tr']['ctx'], st['s'], st['m'], f.content)
    elif kind != 'unregistered':
        c.prove(not reg.calls, '%s: no service is touched' % kind)


KINDS = ('undecodable', 'heartbeat', 'rejected', 'nameless', 'context', 'unregistered', 'setup', 'raised', 'oneway', 'served', 'unusable')


@goal('C14', 'a complete frame gets the reply it asks for', covers=KINDS, parallel=True)
def answers(c):
    w = World(c)
    c.extra['drain_ok'] = c.extra['no_reset'] = True
    handling(c, w, replies, few(w), None)


@goal('C14', 'each outcome of a service method', covers=('raised', 'oneway', 'served', 'unusable', 'setup'), parallel=True)
def outcomes(c):
    w = World(c)
    c.extra['drain_ok'] = c.extra['no_reset'] = True
    c.extra['denotes'] = named
    handling(c, w, replies, None, None)


@goal('C14', 'incomplete frames and broken connections', covers=('incomplete', 'heartbeat', 'served', 'rejected'), parallel=True)
def broken(c):
    w = World(c)
    c.extra['denotes'] = named
    handling(c, w, replies, few(w)[:1], few(w)[:1])
