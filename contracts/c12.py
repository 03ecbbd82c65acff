"""C12: requests reach exactly the registered service method (both handlers, an arbitrary registry)."""
from .server import *

HANDLERS = ('anthunder.listener.aio_listener:AioThreadpoolRequestHandler', 'anthunder.listener.sock_listener:SockServiceHandler')


def handler(c, w):
    o = attempt(lambda: rt.call(w(HANDLERS[c.pick(2, 'handler')])))
    c.prove(o[0] == 'ok', 'a handler can be made', show(o))
    return o[1]


class Made(rt.Model):
    """a service class given to register_interface"""
    def __init__(self, err=None):
        self.calls, self.err = (), err

    def __call__(self, *a, **k):
        self.calls = self.calls + ((a, k),)
        if self.err:
            raise self.err
        self.last = rt.Model()
        return self.last


@goal('C12', 'register: the last registration of an interface holds, the others stay', covers=('new', 'again', 'other known', 'other unknown', 'plain', 'extra'))
def register(c):
    w = World(c)
    h = handler(c, w)
    reg = Registry(c, w, h)
    name, other = text(c, 'interface'), text(c, 'other')
    c.assume(z3.Not(core.zb(veq(name, other))))
    c.cover('new' if reg.registered(name) is None else 'again')
    before = reg.registered(other)
    # extra arguments given at registration
    n = c.pick(6, 'extra arguments')
    A = [lambda: [], lambda: [text(c, 'x')], lambda: [integer(c, 'y'), None], lambda: [], lambda: [], lambda: [0]][n]()
    Kw = [{}, {}, {}, dict(q=1), dict(q=text(c, 'q'), spanctx_=None), dict(r=b'')][n]
    f = Made(ValueError('x') if c.choose(2, 'the class raises') else None)
    o = attempt(lambda: rt.callm(h, 'register_interface', name, f, *A, **Kw))
    c.prove(o == ('ok', None), 'an interface can be registered', show(o))
    c.cover('extra' if n else 'plain')
    m = rt.getattr_(h, 'interface_mapping')
    c.prove(not f.calls, 'registering creates no service')
    # the entry of this interface
    p = PDict._find(m, name)
    c.prove(p is not None, 'the interface is registered')
    e = m._getat(p)
    ctx = rt.Model()
    o = attempt(lambda: rt.call(e, ctx))
    c.prove(len(f.calls) == 1, 'a request creates one service from the class registered last', str(len(f.calls)))
    a, k = f.calls[0]
    c.prove(len(a) == 1 + len(A) and a[0] is ctx, 'the trace context comes first', lambda: rep(a))
    c.prove(all(x is y or core.zb(veq(x, y)) is True or c.entails(core.zb(veq(x, y))) for x, y in zip(a[1:], A)), 'then the positional arguments given at registration', lambda: rep(a))
    c.prove(set(k) == set(Kw) and all(k[x] is Kw[x] for x in Kw), 'and the keyword arguments given at registration', lambda: rep(k))
    if f.err:
        c.prove(o[0] == 'err' and o[1] is f.err, 'what the class raises is passed on', show(o))
    else:
        c.prove(o[0] == 'ok' and o[1] is f.last, 'the service is what the class made', show(o))
    # every other interface
    p = PDict._find(m, other)
    if before is None:
        c.cover('other unknown')
        c.prove(p is None, 'no other interface appears')
    else:
        c.cover('other known')
        c.prove(p is not None and core.zb(veq(m._getat(p), before)), 'the other interfaces keep their classes')


def outcome(c, h, o):
    """what a request came to: the blocking handler returns it, the asyncio one a future"""
    if o[0] == 'ok' and isinstance(o[1], aio.CFut):
        c.prove(o[1].outcome is not None, 'the method is called')
        return o[1].outcome
    return o


@goal('C12', 'a request calls exactly the registered method, once, with its content', covers=('served', 'raised', 'setup', 'unregistered', 'missing'))
def request(c):
    w = World(c)
    h = handler(c, w)
    reg = Registry(c, w, h)
    NP = w('anthunder.listener.base_listener:NoProcessorError')
    s, m, body = text(c, 'service'), text(c, 'method'), bytestr(c, 'body')
    ctx = rt.Model()
    keep = [list(reg.map.segs)]
    o = attempt(lambda: rt.callm(h, 'handle_request', ctx, s, m, body))
    c.prove(keep == [list(reg.map.segs)] and rt.getattr_(h, 'interface_mapping') is reg.map, 'a request does not change the registry')
    if reg.registered(s) is None:
        c.cover('unregistered')
        isexc(c, o, NP, 'an unregistered interface has no processor')
        c.prove(not reg.calls, 'nothing is called for it')
        return
    if reg.setup is not None:
        c.cover('setup')
        c.prove(o[0] == 'err' and o[1] is reg.setup, 'an error setting up the service is passed on', show(o))
        reg.executed('setup', ctx, s, m, body)
        return
    if reg.missing:
        c.cover('missing')
        isexc(c, o, NP, 'a missing method has no processor')
        c.prove([x[0] for x in reg.calls] == ['make', 'made'], 'no method is called for it')
        return
    reg.executed('served', ctx, s, m, body)
    r = outcome(c, h, o)
    if reg.outcome[0] == 'err':
        c.cover('raised')
        e = reg.outcome[1]
        c.prove(r[0] == 'err' and (r[1] is e or isinstance(e, StopIteration)), "the method's error is the outcome", show(r))
    else:
        c.cover('served')
        v = reg.outcome[1]
        c.prove(r[0] == 'ok' and (r[1] is v or core.zb(veq(r[1], v))), "the method's result is the outcome", show(r))
