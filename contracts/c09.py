"""C09: one-way calls and heartbeats of the clients (the rely/guarantee reasoning is in client.py)."""
from .client import *
from .c07 import entry, args, submitted, kinds
from .blocking import Blocking


@goal('C09', 'asyncio: a one-way call hands over one ONEWAY request and does not wait', covers=('sent', 'refused'))
def oneway_entry(c):
    w = World(c)
    cl, st = entry(c, w)
    A = args(c)

    def result(f, timeout):
        c.prove(False, 'a one-way call does not wait for a response')
        raise cf.TimeoutError()
    c.extra['on_result'] = result
    o = attempt(lambda: rt.callm(cl, 'invoke_oneway', A['interface'], A['method'], A['content'], spanctx=A['spanctx']))
    if not c.extra['submitted']:
        c.cover('refused')
        c.prove(o[0] == 'err', 'a call that is not sent is an error', show(o))
        return
    if submitted(c, w, cl, st, 'one-way', 2, A['content'], z3.IntVal(-1)) is not None:
        c.cover('sent')
        c.prove(o[0] == 'ok', 'a one-way call that is sent is no error', show(o))


def last_sent(c, call, want, what):
    """what was sent on the connection the request was last sent on"""
    ok = [p for p in call.conns.used if not p[1].broken]
    c.prove(len(ok) <= 1 and all(p is call.conns.used[-1] for p in ok), '%s: nothing is sent after it was sent' % what)
    for p in ok:
        c.prove(len(p[1].writes) == 1, '%s: it is sent once' % what, str(len(p[1].writes)))
        eq(c, SymBytes.lift(p[1].writes[0]), want, '%s: the right message is sent' % what)
    c.prove(all(core.zb(veq(a, call.addr)) is not False and c.entails(core.zb(veq(a, call.addr))) for a in call.conns.asked), '%s: to the right address' % what)
    return bool(ok)


@goal('C09', 'asyncio: a one-way request is sent and nothing is waited for', covers=('sent', 'unsent'), parallel=True)
def oneway_send(c):
    w = World(c)
    cl = client(c, w)
    k, r = request(c, w, 'oneway')
    data = attempt(lambda: rt.callm(r, 'to_stream'))
    call = Call(c, w, cl, r)
    base = c.extra['on_suspend']

    def suspend(what, *a):
        c.prove(what != 'event', 'nothing waits for a response to a one-way request')
        base(what, *a)
    c.extra['on_suspend'] = suspend
    o = call.run()
    if data[0] == 'err':
        return
    d = SymBytes.lift(data[1])
    eq(c, SymBytes.lift(d[1:2]), be(1, z3.IntVal(2)), 'a one-way request is marked ONEWAY')
    if last_sent(c, call, d, 'one-way'):
        c.cover('sent')
        c.prove(o[0] == 'ok' and o[1] is None, 'it is done once it is sent', show(o))
    else:
        c.cover('unsent')
        c.prove(o[0] == 'err', 'a request that cannot be sent is an error', show(o))


class Own(rt.Model):
    def __init__(self, rid):
        self.request_id = rid


class Beat(Call):
    """one heartbeat among arbitrary calls of others"""
    def run(self):
        self.o = attempt_co(lambda: rt.callm(self.cl, 'invoke_heartbeat', self.addr))
        return self.o


@goal('C09', 'asyncio: a heartbeat succeeds exactly when a success heartbeat response with its id arrives', covers=('success', 'failure status', 'no heartbeat', 'unusable', 'unsent'),
      parallel=True)
def heartbeat(c):
    w = World(c)
    cl = client(c, w)
    header_contracts(c)
    rid = integer(c, 'drawn', 0, 2 ** 31 - 1)
    n = []

    def hook(cyc):
        n.append(1)
        return rid
    c.extra['cycle_hook'] = hook
    call = Beat(c, w, cl, Own(rid))
    o = call.run()
    m = call.maps
    c.prove(len(n) == 1, 'a heartbeat has its own request id')
    want = frame(True, 1, 1, 0, 1, rid, 11, 0, b'', b'', b'')
    sent = last_sent(c, call, want, 'heartbeat')
    c.prove(o[0] == 'err' or o[1] is None or isinstance(o[1], (bool, sym.SymBool)), 'a heartbeat says whether it succeeded', show(o))
    yes = o[0] == 'ok' and o[1] is not None and c.decide(core.zb(o[1]))
    m.clean('heartbeat')
    if not sent:
        c.cover('unsent')
        c.prove(not yes, 'a heartbeat that was not sent does not succeed', show(o))
    elif m.acted != 'ok':
        c.cover('unusable')
        c.prove(not yes, 'a heartbeat without a proper response does not succeed', show(o))
    else:
        st, cmd = rt.getattr_(m.resp, 'respstatus'), rt.getattr_(m.resp, 'cmdcode')
        if c.decide(sym.zi(cmd.t) != 0):
            c.cover('no heartbeat')
            c.prove(not yes, 'a response that is no heartbeat response is no success', show(o))
        elif c.decide(sym.zi(st.t) != 0):
            c.cover('failure status')
            c.prove(not yes, 'a failure status is no success', show(o))
        else:
            c.cover('success')
            c.prove(yes, 'a success heartbeat response with its id is a success', show(o))


@goal('C09', 'asyncio: a client with a mesh starts a heartbeat every 30 seconds, whatever becomes of each', covers=('a period', 'failed', 'succeeded'))
def timer(c):
    w = World(c)
    addr, asked = addresses(c)
    c.extra['submitted'] = []
    cl = client(c, w, mesh=True)
    subs = c.extra['submitted']
    c.prove(len(subs) == 1, 'a client with a mesh starts one heartbeat timer', str(len(subs)))
    c.extra['cut_whiles'] = c.extra['one_iteration'] = True
    c.extra['cheap'] = True
    st = dict(task=0)
    ks = kinds(w) + [lambda: asyncio.CancelledError(), lambda: ConnectionResetError(104, 'x')]

    def beat(c, f, cl_, address, *a, **k):
        c.prove(core.zb(veq(address, addr)), 'the heartbeat goes to the mesh', lambda: rep(address))
        st['beats'] += 1

        def go():
            aio.suspend('heartbeat')
            j = c.choose(2 + len(ks), 'how the heartbeat ends')
            if j < 2:
                c.cover('succeeded')
                return j == 0
            c.cover('failed')
            raise ks[j - 2]()
        return aio.Aw(go)
    c.extra['contracts']['anthunder.client.aio_client:AioClient.invoke_heartbeat'] = beat

    def on_spawn(t):
        st['task'] += 1
        attempt(lambda: drive(t.coro))          # as long as it takes; nobody waits for it
        st['task'] -= 1
    c.extra['on_spawn'] = on_spawn

    def on_suspend(what, *a):
        if st['task'] or 'slept' not in st:
            return
        c.prove(what == 'sleep', 'the timer does not wait for a heartbeat', what)
        st['slept'] = z3.simplify(st['slept'] + sym.zr(a[0]))
    c.extra['on_suspend'] = on_suspend

    def head(loop):
        st.update(beats=0, slept=z3.RealVal(0))
    c.extra['loop_head'] = head

    def backedge(loop, seg):
        c.cover('a period')
        c.prove(st['beats'] == 1, 'one heartbeat is started each time', str(st['beats']))
        c.prove(st['slept'] == 30, 'a heartbeat is started every 30 seconds', lambda: str(st['slept']))
    c.extra['loop_backedge'] = backedge
    o = attempt(lambda: drive(subs[0].coro))
    c.prove(False, 'the heartbeats go on', show(o))


class Oneway(Blocking):
    def settled(self, conn, s):
        self.sent(conn, -1, 2, self.content)
        self.c.prove(s.zpos() == 0, 'nothing is read for a one-way call')


@goal('C09', 'blocking: a one-way call sends one complete ONEWAY request, waits for nothing and puts the connection back', covers=('sent', 'error'), parallel=True)
def blocking(c):
    w = World(c)
    b = Oneway(c, w)
    A = dict(content=bytestr(c, 'content'))
    b.content = A['content']

    def on_select(s, timeout):
        c.prove(False, 'a one-way call does not wait for a response')
        return PList([])
    c.extra['on_select'] = on_select
    from .c13 import Span
    o = attempt(lambda: rt.callm(b.cl, 'invoke_oneway', text(c, 'interface'), text(c, 'method'), b.content, spanctx=Span()))
    c.prove(all(s.zpos() is 0 or c.entails(s.zpos() == 0) for x, s, f in b.got), 'nothing is read for a one-way call')
    if o[0] == 'err':
        c.cover('error')
        c.prove(isinstance(o[1], Exception), 'an error is an exception', show(o))
        good = [1 for x, data, t in b.sends if not b.sock(x).fault]
        c.prove(not good, 'a one-way call that was sent is no error', show(o))
        return
    c.cover('sent')
    c.prove(len(b.puts) == 1, 'the connection goes back into use', str(len(b.puts)))
