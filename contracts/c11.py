"""C11: the asyncio server stays in step with the byte stream (one arbitrary iteration of the receive loop, as in C10)."""
from .server import *
from .c10 import run, few, named


def instep(c, st, f, writes, reader, writer, how):
    if how == 'next':
        c.prove(reader.broken is None, 'the loop ends when the connection is gone')
        c.prove(sym.zi(reader.pos) == f.end, 'exactly the bytes of one frame are consumed', lambda: str(reader.pos))
        c.prove(not writer.closed and not writer.eof, 'the connection stays open for the next frame')
        h = f.header()
        c.cover('undecodable' if h is None or h == 'undecided' else 'heartbeat' if f.heartbeat() else 'rejected' if c.decide(f.cmd != 1) else 'request')
        return
    o = st['o']
    if reader.broken is None:
        # a reply could not be written
        c.prove(writer.broken, 'a complete frame does not end the connection', show(o))
        return
    c.prove(o[0] == 'ok', 'the handler of a connection that is gone ends', show(o))
    c.prove(writer.closed, 'the connection is closed')
    c.prove(len(writes) <= 1, 'at most one reply about the incomplete frame')
    got = z3.Length(reader.wire) >= st['p0'] + f.fixed
    if writes:
        w0 = SymBytes.lift(writes[0])
        c.prove(got, 'no reply when the fixed header did not arrive')
        c.prove(z3.Or(*[core.zb(w0 == fail(f.rid, s)) for s in FAILS]), "only a failure reply with the incomplete frame's own id", lambda: rep(writes[0]))
        c.cover('cut inside')
    else:
        c.cover('no reply')
    if not c.decide(got, 'the fixed header arrived'):
        c.cover('between')
        c.prove(not writes, 'nothing is sent for an id that was completely received before')


def noreads(c, what, *a):
    if what == 'read':
        c.prove(a[0].broken is None, 'nothing is read from a connection that is gone')


@goal('C11', 'one frame per iteration, and the loop ends with the connection', covers=('undecodable', 'heartbeat', 'rejected', 'request', 'cut inside', 'no reply', 'between'), parallel=True)
def onestep(c):
    w = World(c)
    c.extra['drain_ok'] = True

    def suspend(what, *a):
        noreads(c, what, *a)
    run(c, w, instep, few(w)[:1], few(w)[:1], suspend)


@goal('C11', 'the same with failing writes', covers=('undecodable', 'heartbeat', 'rejected', 'request', 'cut inside', 'no reply', 'between'), parallel=True)
def failing(c):
    w = World(c)
    c.extra['denotes'] = lambda c: named(c) if c.choose(2, 'the block denotes a map') == 0 else None
    c.extra['write_fails'] = True

    def suspend(what, *a):
        noreads(c, what, *a)
    run(c, w, instep, few(w)[:1], few(w)[:1], suspend)
