"""C18: socket helpers transfer exactly the bytes asked for."""
from .kit import *
from pyvc.models import net


def connection(c, w):
    cls = w('mysockpool:SocketConnection')
    key = rt.call(cls.PoolKeyCls, host='h', port=1)
    c.extra['reliable'] = True
    o = attempt(lambda: rt.call(cls, key))
    c.prove(o[0] == 'ok', 'a connection can be made', show(o))
    c.extra['reliable'] = False
    s = [x for x in vars(o[1]).values() if isinstance(x, net.Sock)]
    if len(s) != 1:
        raise Unsupported('the connection does not hold exactly one socket')
    return o[1], s[0]


def progress(c, sock, measure, what):
    """termination: every iteration that goes round moves at least one byte"""
    c.extra['loop_head'] = lambda loop: loop.__dict__.__setitem__('m0', measure())
    c.extra['loop_backedge'] = lambda loop, seg: c.prove(measure() > loop.m0, what + ': every round makes progress')


@goal('C18', 'sendall: every byte once, in order', covers=('sent', 'failed'))
def sendall(c):
    w = World(c)
    conn, sock = connection(c, w)
    data = bytestr(c, 'data')
    kw = {}
    if c.pick(2, 'timeout given') == 1:
        t = z3.Const('timeout', R)
        kw['timeout'] = SymReal(t)
    flags = 0
    if c.pick(2, 'flags given') == 1:
        flags = integer(c, 'flags')
        kw['flags'] = flags
    progress(c, sock, lambda: SymBytes.lift(sock.out).zlen(), 'sendall')
    o = attempt(lambda: rt.callm(conn, 'sendall', data, **kw))
    if o[0] == 'ok':
        c.cover('sent')
        eq(c, SymBytes.lift(sock.out), data, 'exactly the bytes of the data were passed to the socket, in order')
    else:
        c.cover('failed')
        import socket
        c.prove(isinstance(o[1], (OSError, net_error(w))), 'a failure is an error of the socket or of waiting for it', show(o))
        n = SymBytes.lift(sock.out).zlen()
        eq(c, SymBytes.lift(sock.out), data[:mkint(n)], 'what was passed on before a failure is a prefix of the data')


def net_error(w):
    return w('mysockpool.exceptions:SocketValueError')


@goal('C18', 'recvexactly: the next size bytes, the rest left unread', covers=('received', 'ended'))
def recvexactly(c):
    w = World(c)
    conn, sock = connection(c, w)
    p0 = z3.Const('read_before', I)
    c.assume(z3.And(p0 >= 0, p0 <= z3.Length(sock.wire)))
    sock._set('pos', mkint(p0))
    size = integer(c, 'size', 0)
    progress(c, sock, sock.zpos, 'recvexactly')
    o = attempt(lambda: rt.callm(conn, 'recvexactly', size))
    L = z3.Length(sock.wire)
    if o[0] == 'ok':
        c.cover('received')
        c.prove(isinstance(o[1], (bytes, SymBytes)), 'bytes are returned', show(o))
        c.prove(sock.zpos() == p0 + zi(size), 'exactly size bytes are taken from the stream')
        eq(c, SymBytes.lift(o[1]), SymBytes((Slc(sock.wire, p0, z3.simplify(p0 + zi(size))),)) , 'the bytes returned are the next size bytes of the stream')
    elif not sock.fault and not isinstance(o[1], net_error(w)):
        c.cover('ended')
        c.prove(p0 + zi(size) > L, 'an error only if the stream ends early', show(o))
        c.prove(isinstance(o[1], Exception), 'the early end is an error', show(o))


def ready_list(c, n, K, Rr, Ww):
    def on_select(sel, timeout):
        c.extra['reported'] = (sel, timeout)
        return PList.seg(lambda i: (net.Key(Opaque(K(i))), net.Mask(Rr(i), Ww(i))), n)
    return on_select


def waiting(c, fname, bit):
    w = World(c)
    f = w('mysockpool:' + fname) if hasattr(w('mysockpool'), fname) else w('mysockpool._wait:' + fname)
    n = z3.Const('reported', I)
    c.assume(n >= 0)
    K = z3.Function('reported_sock', I, Opaque.VAL); Rr = z3.Function('is_readable', I, B); Ww = z3.Function('is_writable', I, B)
    for x in (K, Rr, Ww):
        core.GLOBAL_UFS.add(x.name())
    c.extra['on_select'] = ready_list(c, n, K, Rr, Ww)
    regs = []
    c.extra['on_register'] = lambda sel, fo, ev: regs.append((sel, fo, ev))
    many = c.pick(2, 'one socket or several')
    if many:
        socks, V, cnt = sym_list('socks', kind='val')
    else:
        socks = net.Sock()

    def backedge(loop, seg):
        if len(regs) == 1:
            c.prove(regs[0][2] == bit, 'each socket is registered for the requested event')
    c.extra['loop_backedge'] = backedge
    t = None if c.pick(2, 'timeout given') == 0 else SymReal(z3.Const('timeout', R))
    o = attempt(lambda: rt.call(f, socks, t))
    if o[0] == 'err':
        isexc(c, o, (net_error(w),), 'waiting fails only if a socket cannot be waited for')
        c.cover('refused')
        return
    c.cover('waited')
    rep_ = c.extra.get('reported')
    c.prove(rep_ is not None and rep_[1] is t, 'the system is asked, with the given timeout')
    if not many:
        c.prove(len(regs) == 1 and regs[0][1] is socks and regs[0][2] == bit, 'the socket is registered for the requested event')
    ready = Rr if bit == 1 else Ww
    l = rt.to_plist(o[1])
    for p in l.parts:
        if p[0] == 'v':
            c.prove(False, 'only sockets that were reported are returned')
        else:
            i = c.fresh('returned', I)
            c.assume(z3.And(i >= 0, i < p[2]))
            c.instantiate(i)
            if p[3] is not None:
                c.assume(core.zb(p[3](i)))
            v = p[1](i)
            c.prove(core.zb(v == Opaque(K(i))), 'returned sockets are those reported')
            c.prove(z3.And(i < n, ready(i)), 'only sockets reported ready for the requested event are returned')
    # and every one of them is there
    j = c.fresh('ready', I)
    c.assume(z3.And(j >= 0, j < n, ready(j)))
    c.instantiate(j)
    if l.parts:
        p = l.parts[0]
        c.prove(z3.And(j < p[2], core.zb(p[3](j)) if p[3] is not None else z3.BoolVal(True)), 'every socket reported ready is returned')
    else:
        c.prove(n == 0, 'every socket reported ready is returned')
    for s in c.extra.get('selectors', ()):
        c.prove(not s.open, 'the selector is released')


@goal('C18', 'wait_for_read: only sockets reported readable', covers=('waited', 'refused'))
def wait_read(c):
    waiting(c, 'wait_for_read', 1)


@goal('C18', 'wait_for_write: only sockets reported writable', covers=('waited', 'refused'))
def wait_write(c):
    waiting(c, 'wait_for_write', 2)
