"""C13: the blocking client returns only its own, complete, successful response."""
from .blocking import *
from .c07 import millis


class Span(rt.Model):
    def __init__(self):
        self.baggage = PDict()


def arguments(c):
    kw = dict(interface=text(c, 'interface'), method_name=text(c, 'method'), content=bytestr(c, 'content'), spanctx=Span())
    return kw


class Sync(Blocking):
    """every wait is limited by the deadline of the call"""
    limit = None

    def wait(self, timeout, what):
        c = self.c
        c.prove(timeout is not None, '%s: never without a limit' % what)
        c.prove(self.limit is not None, '%s: the call has a deadline' % what)
        t = sym.zr(timeout)
        c.prove(z3.Or(t <= 0, c.extra['clock'] + t <= self.limit), '%s: no longer than the deadline of the call (its timeout and a second)' % what, lambda: rep(timeout))

    def settled(self, conn, s):
        c, f = self.c, self.frame(conn)
        self.sent(conn, self.whole, 1, self.content)
        c.prove(s.zpos() == f.end, 'a connection with missing or unread bytes of a response is not put back', lambda: str(s.zpos()))


def call(c, faults, silent=False):
    w = World(c)
    b = Sync(c, w, faults)
    t, real, b.whole = millis(c)
    A = arguments(c)
    b.content = A['content']

    def clock(now):
        if b.limit is None:
            c.assume(now >= 10 ** 9)     # the clock is past 2001
            b.limit = now + real / 1000 + 1
    c.extra['clock_hook'] = clock

    def head(loop):
        loop.m0 = b.got[-1][1].zpos() if b.got else None

    def backedge(loop, seg):
        if loop.m0 is not None:
            c.prove(b.got[-1][1].zpos() > loop.m0, 'every round of waiting gets some more bytes')
    c.extra['loop_head'], c.extra['loop_backedge'] = head, backedge

    sel = net.DefaultSelector.select

    def on_select(s, timeout):
        b.wait(timeout, 'waiting')
        if silent:
            c.cover('waiting')
            return PList([])
        h = c.extra.pop('on_select')
        r = sel(s, timeout)
        c.extra['on_select'] = h
        return r
    c.extra['on_select'] = on_select
    o = attempt(lambda: rt.callm(b.cl, 'invoke_sync', A['interface'], A['method_name'], A['content'], spanctx=A['spanctx'], timeout_ms=t))
    if o[0] == 'err':
        c.cover('error')
        e = o[1]
        c.prove(isinstance(e, Exception), 'an error is an exception', show(o))
        c.prove(len(b.sends) <= 3, 'a call gives up after three attempts')
        return
    c.cover('returned')
    c.prove(bool(b.got), 'content comes from a connection')
    conn, s, f = b.got[-1]
    b.sent(conn, b.whole, 1, A['content'])
    c.prove(s.zpos() == f.end, 'a complete response was received', lambda: str(s.zpos()))
    c.prove(f.end <= z3.Length(s.wire), 'a complete response was received (to its last byte)')
    c.prove(f.rid.t == sym.zi(b.ids[0]) if hasattr(f.rid, 't') else f.rid == b.ids[0], "the response has the call's id")
    c.prove(sym.zi(f.last) == 0, 'the response has the success status')
    c.prove(isinstance(o[1], (bytes, SymBytes)) and core.zb(SymBytes.lift(o[1]) == f.content), "exactly the response's content is returned", show(o))


@goal('C13', 'invoke_sync: only its own, complete, successful response; waits limited by the deadline', covers=('returned', 'error'), parallel=True)
def sync(c):
    call(c, 'first')


@goal('C13', 'invoke_sync: connecting and sending may fail in any way', covers=('waiting', 'error'), parallel=True)
def retries(c):
    call(c, 'all', silent=True)
