"""C10: the asyncio server answers each request exactly once with the right status.

The receive loop is verified for one arbitrary iteration: an arbitrary frame at an arbitrary position of an arbitrary stream, with
an arbitrary registry of services; the tasks it starts run to their end."""
from .server import *


def iteration(c, w, check, outcomes=None, factories=None, cancellable=None):
    """verify one iteration of the receive loop; check(frame, writes of this iteration, reader, writer, how it ended)"""
    header_contracts(c)
    tr = tracing(c, w)
    o = attempt(lambda: rt.call(w('anthunder:AioListener'), ('127.0.0.1', 12200), 'app'))
    c.prove(o[0] == 'ok', 'a listener can be made', show(o))
    l = o[1]
    c.extra['posts'] = []
    reg = Registry(c, w, rt.getattr_(l, 'handler'), outcomes, factories)
    reader, writer = aio.StreamReader(), aio.StreamWriter()
    st = dict(tr=tr, reg=reg, tasks=[], failed=False)
    c.extra['cut_whiles'] = c.extra['one_iteration'] = True
    c.extra['managed'] = (reader, writer)
    c.extra['cheap'] = True

    def on_spawn(t):
        # the task runs at some later time; what it does depends on nothing that changes until then
        st['tasks'].append(t)
        t.out = attempt(lambda: drive(t.coro))
    c.extra['on_spawn'] = on_spawn

    def head(loop):
        p0 = c.fresh('boundary', I)
        c.assume(z3.And(p0 >= 0, p0 <= z3.Length(reader.wire)))
        object.__setattr__(reader, 'pos', mkint(p0))
        object.__setattr__(reader, 'broken', None)
        object.__setattr__(writer, 'writes', ())
        object.__setattr__(writer, 'broken', False)
        st['p0'] = p0
        st['frame'] = Frame(c, p0)
        reader.describe(p0, st['frame'].rope)
    c.extra['loop_head'] = head

    c.extra['loop_backedge'] = lambda loop, seg: check(st, st['frame'], writer.writes, reader, writer, 'next')
    o = attempt_co(lambda: rt.callm(l, '_handler_connection', reader, writer))
    if 'frame' not in st:
        raise Unsupported('the receive loop was not reached')
    st['o'] = o
    check(st, st['frame'], writer.writes, reader, writer, 'over')


def expected(c, st, f):
    """-> (kind, list of acceptable replies; None = no reply)"""
    reg, tr = st['reg'], st['tr']
    rid = f.rid
    h = f.header()
    wrong = []
    if h == 'undecided':
        h = None if f.heartbeat() else h
    if h is None:
        wrong.append('CODEC_EXCEPTION')
    if f.heartbeat():
        return 'heartbeat', [heartbeat(rid)] + [fail(rid, s) for s in wrong]
    if c.decide(f.cmd != 1, 'wrong command'):
        wrong.append('CLIENT_SEND_ERROR')
    elif not c.decide(core.zb(veq(f.cls, REQ_CLASS)), 'class name'):
        wrong.append('CLIENT_SEND_ERROR')
    if wrong:
        return 'rejected', [fail(rid, s) for s in wrong]
    s = f.service(h)
    m = f.method(h) if s is not None else None
    if s is None or m is None:
        return 'nameless', [fail(rid, 'CLIENT_SEND_ERROR')]
    st['s'], st['m'] = s, m
    if tr.get('invalid'):
        return 'context', [fail(rid, 'SERVER_EXCEPTION')]
    if reg.registered(s) is None:
        return 'unregistered', [fail(rid, 'NO_PROCESSOR')]
    if reg.setup is not None:
        return 'setup', [fail(rid, 'SERVER_EXCEPTION')]
    if reg.missing:
        return 'unregistered', [fail(rid, 'NO_PROCESSOR')]
    if c.decide(f.ptype == 2, 'one-way'):
        return 'oneway', [None]
    if st.get('timeup'):
        return 'timeout', [fail(rid, 'TIMEOUT')]
    k, v = reg.outcome if reg.outcome is not None else (None, None)
    if k == 'ok':
        if isinstance(v, (bytes, SymBytes)):
            return 'served', [success(rid, v)]
        return 'unusable', [fail(rid, s) for s in FAILS]
    if k == 'err':
        if isinstance(v, (TimeoutError, cf.CancelledError, asyncio.CancelledError)):
            return 'timeout', [fail(rid, 'TIMEOUT')]
        return 'raised', [fail(rid, 'UNKNOWN')]
    return 'uncalled', []


def replies(c, st, f, writes, reader, writer, how):
    kind, want = expected(c, st, f)
    reg, tr = st['reg'], st['tr']
    c.cover(kind)
    c.prove(len(writes) <= 1, '%s: at most one reply' % kind, '%d replies' % len(writes))
    if None in want:
        c.prove(len(writes) == 0, '%s: never answered' % kind)
    elif not writer.broken and not st['failed']:
        c.prove(len(writes) == 1, '%s: exactly one reply' % kind, 'none')
    if writes and None not in want:
        w0 = SymBytes.lift(writes[0])
        c.prove(z3.Or(*[core.zb(w0 == x) for x in want]), '%s: the right reply' % kind, lambda: '%s, expected %s' % (rep(writes[0]), rep(want)))
    if kind in ('served', 'raised', 'unusable', 'timeout', 'oneway', 'setup'):
        c.prove(tr['ctx'] is not None, 'the trace context is extracted')
        reg.executed(kind, tr['ctx'], st['s'], st['m'], f.content)
    else:
        c.prove(not [x for x in reg.calls if x[0] == 'call'], '%s: no service method is called' % kind)
        if kind != 'unregistered':
            c.prove(not reg.calls, '%s: no service is touched' % kind)


def waiting(c, st):
    """the time a method gets"""
    def f():
        for e in c.trace:
            if e[0] == 'wait_for':
                t = e[2]
                fr = st['frame']
                if t is None:
                    c.prove(fr.timeout <= 0, 'a request with a positive timeout is limited')
                else:
                    c.prove(z3.And(fr.timeout > 0, sym.zr(t) * 1000 == z3.ToReal(fr.timeout)), 'the time limit is the timeout of the request, in milliseconds')
    return f


def both(c, st, f, writes, reader, writer, how):
    if how == 'next':
        waiting(c, st)()
        replies(c, st, f, writes, reader, writer, how)
        return
    # the connection is over: the frame did not arrive completely, or writing failed
    if reader.broken is None and not writer.broken:
        c.prove(False, 'a complete frame does not end the connection', show(st['o']))
    c.cover('over')


KINDS = ('heartbeat', 'rejected', 'nameless', 'unregistered', 'setup', 'oneway', 'served', 'unusable', 'raised', 'timeout', 'context')


def few(w):
    return [lambda: ValueError('x'), lambda: TimeoutError('x'), lambda: SystemExit(1), lambda: asyncio.CancelledError('x')]


def named(c):
    """the headers of a call that names a service and a method"""
    h = PDict()
    for k in ('sofa_head_target_service', 'sofa_head_method_name'):
        t = text(c, k)
        c.assume(t.zlen() > 0)
        h[k] = t
    return h


def run(c, w, check, outcomes=None, factories=None, suspend=None):
    s = c.extra['st'] = {}

    def timeup(what, *a):
        if what == 'timeout':
            s['timeup'] = True
        if suspend:
            suspend(what, *a)
    c.extra['on_suspend'] = timeup

    def chk(st, *a):
        st.setdefault('timeup', s.get('timeup'))
        check(c, st, *a)
    iteration(c, w, chk, outcomes, factories)


@goal('C10', 'each complete frame gets exactly the reply it asks for', covers=KINDS, parallel=True)
def answers(c):
    w = World(c)
    c.extra['drain_ok'] = c.extra['no_reset'] = True
    run(c, w, both, few(w))


@goal('C10', 'each outcome of a service method gets its status', covers=('oneway', 'served', 'unusable', 'raised', 'timeout', 'setup'), parallel=True)
def statuses(c):
    w = World(c)
    c.extra['drain_ok'] = c.extra['no_reset'] = True
    c.extra['denotes'] = named
    run(c, w, both)


@goal('C10', 'at most one reply when the connection breaks', covers=('oneway', 'served', 'raised', 'timeout', 'over', 'heartbeat', 'rejected'), parallel=True)
def broken(c):
    w = World(c)
    c.extra['denotes'] = named
    run(c, w, both, few(w)[:2], few(w)[:1])
