"""C07: the asyncio client reports failures as errors and keeps no leftovers (the rely/guarantee reasoning is in client.py)."""
from .client import *


def outcome(c, w, k, call):
    o, m = call.o, call.maps
    X = w('anthunder.exceptions:ServerError')
    sent = [p for p in call.conns.used if p[1].writes and not p[1].broken]
    if o[0] == 'ok':
        c.prove(bool(sent), 'a call that could not be sent does not end normally')
        if k == 'oneway':
            c.cover('one-way')
        return
    e = o[1]
    if c.extra.get('cancelled'):
        c.cover('cancelled')
        return
    if not sent:
        c.cover('unsent')
        return
    if k == 'oneway':
        c.prove(False, 'a one-way call that was sent is no error', show(o))
    if m.acted == 'bad':
        c.cover('undecodable')
        isexc(c, o, X, 'a call whose response cannot be used ends with a server error')
    elif m.acted == 'ok':
        st, cmd = rt.getattr_(m.resp, 'respstatus'), rt.getattr_(m.resp, 'cmdcode')
        c.prove(k != 'heartbeat', 'the answer to a heartbeat is judged by the heartbeat', show(o))
        c.prove(z3.Not(z3.And(sym.zi(st.t) == 0, sym.zi(cmd.t) == 2)), 'a success response is no error', show(o))
        isexc(c, o, X, 'a failure response ends the call with a server error')
        if c.decide(sym.zi(cmd.t) == 2, 'a response'):
            c.cover('failure status')
            want = rt.call(X.from_statuscode, st)
            c.prove(len(e.args) == 1 and core.zb(veq(e.args[0], want.args[0])), 'the server error says the status of the response', lambda: '%s, expected %s' % (rep(e.args), rep(want.args)))
        else:
            c.cover('no response')
    else:
        c.prove(False, 'a call that was sent waits for its response', show(o))


@goal('C07', 'the server error of a status names that status')
def status_error(c):
    w = World(c)
    X, RS = w('anthunder.exceptions:ServerError'), w('anthunder.protocol.constants:RESPSTATUS')
    for m in RS:
        o = attempt(lambda: rt.call(X.from_statuscode, m))
        c.prove(o[0] == 'ok' and isinstance(o[1], X), 'there is a server error for %s' % m.name, show(o))
        s = rt.call(str, o[1])
        c.prove(isinstance(s, str) and (m.name in s.replace('=', ' ').replace(',', ' ').split() or str(m.value) in s.replace('=', ' ').replace(',', ' ').split()),
                'the server error of %s names it' % m.name, lambda: rep(s))


def one(c, kinds=None, when=('connection', 'drain', 'event'), refuse=True, cancel=False, kind=None):
    w = World(c)
    cl = client(c, w)
    k, r = request(c, w, kind)
    if cancel:
        c.extra['cancellable'] = True
    call = Call(c, w, cl, r, kinds or ('bad', 'ok'), when, refuse)
    call.run(**(dict(address=call.addr) if k == 'heartbeat' else {}))
    outcome(c, w, k, call)
    call.maps.clean('at the end')


@goal('C07', 'each outcome of a call; nothing is left behind', covers=('one-way', 'unsent', 'undecodable', 'failure status', 'no response'), parallel=True)
def outcomes(c):
    one(c)


@goal('C07', 'a cancelled call leaves nothing behind', covers=('cancelled',), parallel=True)
def cancelled(c):
    c.extra['drain_ok'] = True
    one(c, cancel=True)


@goal('C07', 'a cancelled call leaves nothing behind, with failing connections', covers=('cancelled', 'unsent'), parallel=True)
def cancelled_retry(c):
    one(c, kinds=('bad',), when=('event',), cancel=True, kind=('call', 'oneway')[c.pick(2)])


# ---------------------------------------------------------------- the entry points

def entry(c, w):
    """a client whose invoke is only known by its contract: a business call gives a success response with its own id, or raises"""
    header_contracts(c)
    headers(c, w)
    drawn(c)
    cl = client(c, w)
    st = dict(calls=[])

    class Invocation(rt.Model):
        def __init__(self, a, k):
            self.a, self.k = a, k

    def inv(c, f, cl_, *a, **k):
        i = Invocation(a, k)
        st['calls'].append(i)
        return i
    c.extra['contracts'][INVOKE] = inv
    c.extra['submitted'] = []
    c.extra['cheap'] = True
    return cl, st


def kinds(w):
    X = w('anthunder.exceptions:ServerError'), w('anthunder.exceptions:PyboltError')
    return [lambda: cf.TimeoutError(), lambda: cf.CancelledError(), lambda: rt.call(X[0], 'x'), lambda: rt.call(X[1], 'x'), lambda: OSError(32, 'x'),
            lambda: KeyError('service')]


def submitted(c, w, cl, st, what, ptype, content, timeout):
    """exactly one request was handed to the client's loop: the right message"""
    subs = c.extra['submitted']
    c.prove(len(subs) == 1 and len(st['calls']) == 1, '%s: one request is sent' % what, '%d' % len(subs))
    i = st['calls'][0]
    c.prove(subs[0].coro is i, '%s: it is sent by invoke on the loop of the client' % what)
    c.prove(len(i.a) == 1 and i.k.get('address') is None, '%s: to the address of the interface' % what, lambda: rep((i.a, i.k)))
    p = i.a[0]
    s = attempt(lambda: rt.callm(p, 'to_stream'))
    if s[0] == 'err':
        return None
    h = c.extra['header']
    blk = block_of(c, h)
    blk = blk[1] if isinstance(blk, tuple) else blk
    if timeout is None:
        timeout = rt.getattr_(p, 'timeout')
        c.prove(sym.zr(timeout) <= 0, '%s: a timeout which is not positive does not become one on the wire' % what, lambda: rep(timeout))
    want = frame(True, 1, ptype, 1, 1, rt.getattr_(p, 'request_id'), 11, timeout, REQ_CLASS, blk, content)
    eq(c, SymBytes.lift(s[1]), want, '%s: the request carries the content, the timeout and the type asked for' % what)
    return p


def resp(c, w, p):
    """C06: the success response to p"""
    content = bytestr(c, 'resp_content')
    E = 'anthunder.protocol.constants:'
    return rt.call(w('anthunder.protocol:BoltResponse'), w('anthunder.protocol._sofa_header:empty_header'), content, ptype=w(E + 'PTYPE').RESPONSE,
                   cmdcode=w(E + 'CMDCODE').RESPONSE, request_id=rt.getattr_(p, 'request_id')), content


def millis(c):
    """a timeout in milliseconds, whole or not -> (value, as a real, whole; None: not positive)"""
    j = c.choose(4, 'whole milliseconds, and positive')
    if j in (0, 2):
        t = integer(c, 'timeout_ms', 1, 2 ** 31 - 1) if j == 0 else integer(c, 'timeout_ms', -2 ** 31, 0)
        return t, z3.ToReal(sym.zi(t)), sym.zi(t) if j == 0 else None
    r = z3.Const(c.name('timeout_real'), R)
    c.assume(z3.And(r > 0, r < 2 ** 31) if j == 1 else z3.And(r > -2 ** 31, r <= 0))
    return c.track('timeout_real', SymReal(r)), r, z3.ToInt(r) if j == 1 else None


def args(c):
    return dict(interface=text(c, 'interface'), method=text(c, 'method'), content=bytestr(c, 'content'), spanctx=rt.Model())


@goal('C07', 'invoke_sync: waits no longer than its timeout, which is on the wire; returns only a success content', covers=('returned', 'raised'))
def sync(c):
    w = World(c)
    cl, st = entry(c, w)
    t, real, whole = millis(c)
    A = args(c)
    ks = kinds(w)
    s = {}

    def result(f, timeout):
        c.prove(timeout is not None, 'a synchronous call does not wait without end')
        c.prove(sym.zr(timeout) * 1000 <= real, 'a synchronous call waits no longer than its timeout', lambda: rep(timeout))
        c.prove('waited' not in s, 'it waits once')
        s['waited'] = True
        j = c.choose(1 + len(ks), 'how the call ends')
        if j == 0:
            r, s['content'] = resp(c, w, f.coro.a[0])
            s['o'] = ('ok', r)
        else:
            s['o'] = ('err', ks[j - 1]())
        return s['o']
    c.extra['on_result'] = result
    o = attempt(lambda: rt.callm(cl, 'invoke_sync', A['interface'], A['method'], A['content'], spanctx=A['spanctx'], timeout_ms=t))
    if not c.extra['submitted']:
        c.prove(o[0] == 'err', 'a call that is not sent is an error', show(o))
        return
    submitted(c, w, cl, st, 'sync', 1, A['content'], whole)
    c.prove('o' in s, 'it waits for the response')
    if s['o'][0] == 'ok':
        c.cover('returned')
        c.prove(o[0] == 'ok' and core.zb(veq(o[1], s['content'])), 'the content of the response is returned', show(o))
    else:
        c.cover('raised')
        c.prove(o[0] == 'err' and (o[1] is s['o'][1] or isinstance(o[1], type(s['o'][1]))), "the call's error is raised", show(o))


@goal('C07', 'invoke_async: a callback receives only the content of a success response', covers=('called', 'not called', 'no callback'))
def async_(c):
    w = World(c)
    cl, st = entry(c, w)
    A = args(c)
    kw = {}
    timed = c.choose(3, 'a timeout is given')
    whole = z3.IntVal(-1)
    if timed == 1:
        kw['timeout_ms'], real, whole = millis(c)
    elif timed == 2:
        kw['timeout_ms'] = None
    ks = kinds(w)
    s = dict(calls=[])

    class Callback(rt.Model):
        def __call__(self, *a, **k):
            s['calls'].append((a, k))
            return None
    cb = c.choose(2, 'a callback is given') == 0
    if cb:
        kw['callback'] = Callback()
    o = attempt(lambda: rt.callm(cl, 'invoke_async', A['interface'], A['method'], A['content'], spanctx=A['spanctx'], **kw))
    if not c.extra['submitted']:
        c.prove(o[0] == 'err', 'a call that is not sent is an error', show(o))
        return
    p = submitted(c, w, cl, st, 'async', 1, A['content'], whole)
    c.prove(o[0] == 'ok' and o[1] is c.extra['submitted'][0], 'the future of the call is returned', show(o))
    f = o[1]
    if not cb:
        c.cover('no callback')
        return
    c.prove(not s['calls'], 'the callback is not called before the response')
    c.prove(len(f.callbacks) == 1, 'the callback is called when the call is done', str(len(f.callbacks)))
    j = c.choose(1 + len(ks), 'how the call ends')
    if j == 0:
        r, content = resp(c, w, f.coro.a[0])
        f.outcome = ('ok', r)
    else:
        f.outcome = ('err', ks[j - 1]())
    attempt(lambda: rt.call(f.callbacks[0], f))
    if j == 0:
        c.cover('called')
        c.prove(len(s['calls']) == 1, 'the callback is called once', str(len(s['calls'])))
        a, k = s['calls'][0]
        c.prove(len(a) == 1 and not k and core.zb(veq(a[0], content)), 'with the content of the response', lambda: rep(a))
    else:
        c.cover('not called')
        c.prove(not s['calls'], 'the callback is not called when the call failed', lambda: rep(s['calls']))
