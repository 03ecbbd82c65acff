"""C02: encoded messages have exactly the Bolt v1 wire layout."""
from .kit import *
from . import c01


def layout(c, request):
    r = c01.encode_once(c, request, 'C02')
    if r is None:
        return
    w, cls, h, content, kw, last, stream, blk = r
    want = frame(request, kw['proto'], kw['ptype'], kw['cmdcode'], kw['ver2'], kw['request_id'], kw['codec'], kw[last],
                 REQ_CLASS if request else RESP_CLASS, blk, content)
    c.prove(isinstance(stream, (bytes, SymBytes)), 'the message is bytes')
    eq(c, SymBytes.lift(stream), want, 'exactly the frame of the protocol: header fields, class name, header block, content')
    c.prove(core.zb(rt.call(cls.bolt_header_size) == (22 if request else 20)), 'fixed header size')


@goal('C02', 'BoltRequest.to_stream: layout', covers=('encoded',))
def layout_request(c):
    layout(c, True)


@goal('C02', 'BoltResponse.to_stream: layout', covers=('encoded',))
def layout_response(c):
    layout(c, False)


def draws(c, w):
    """request ids drawn on this path, in order"""
    ids = []

    def hook(cyc):
        v = integer(c, 'drawn', 0, 2 ** 31 - 1)
        ids.append(v)
        return v
    c.extra['cycle_hook'] = hook
    return ids


def encoded(c, w, p):
    """to_stream of p; path ends when it is refused"""
    return attempt(lambda: rt.callm(p, 'to_stream'))


def blk_of(c, h):
    e = c.extra['blocks'].get(id(h.segs))
    return b'' if not h.segs else e[1]


@goal('C02', 'new_request: a business request', covers=('plain', 'default'))
def new_request(c):
    w = World(c)
    header_contracts(c)
    cls = w('anthunder.protocol:BoltRequest')
    P = w('anthunder.protocol.constants:PTYPE')
    h = header_map(c, w)
    c.assume(z3.And(*[s[1].n > 0 for s in h.segs]))
    content = bytestr(c, 'content')
    c.assume(z3.Length(content.term()) <= 2 ** 31)
    ids = draws(c, w)
    kw = {}
    ptype = 1
    if c.choose(2, 'ptype given') == 1:
        pt = kw['ptype'] = member(c, P, 'ptype')
        ptype = pt.t
    tm = c.choose(4, 'timeout')
    tv = z3.IntVal(-1)
    if tm == 1:
        t = kw['timeout_ms'] = integer(c, 'timeout_ms')
        tv = z3.If(zi(t) == 0, z3.IntVal(-1), zi(t))
    elif tm == 2:
        t = z3.Const(c.name('timeout_real'), R)
        kw['timeout_ms'] = c.track('timeout_real', SymReal(t))
        c.assume(z3.And(t >= 1, t <= 2 ** 31 - 1))
        tv = z3.ToInt(t)
    elif tm == 3:
        kw['timeout_ms'] = None
    o = attempt(cls.new_request, h, content, **kw)
    if o[0] == 'err':
        e = c.extra['blocks'].get(id(h.segs))
        c.prove(e is not None and e[1] is None, 'only a header that cannot be encoded is refused when building', show(o))
        return
    c.prove(len(ids) == 1, 'exactly one request id is drawn')
    s = encoded(c, w, o[1])
    blk = blk_of(c, h)
    okv = z3.And(fits(4, tv), SymBytes.lift(blk).zlen() < 65536)
    if s[0] == 'err':
        c.prove(z3.Not(okv), 'a business request whose values fit is encoded', show(s))
        return
    c.cover('plain' if kw else 'default')
    want = frame(True, 1, ptype, 1, 1, ids[0], 11, tv, REQ_CLASS, blk, content)
    eq(c, SymBytes.lift(s[1]), want, 'REQUEST command, request class name, the drawn id, the timeout (or -1)')


@goal('C02', 'response_to: echoes the request id')
def response_to(c):
    w = World(c)
    header_contracts(c)
    cls = w('anthunder.protocol:BoltResponse')
    content = bytestr(c, 'content')
    c.assume(z3.Length(content.term()) < 2 ** 32)
    rid = integer(c, 'request_id', -2 ** 31, 2 ** 31 - 1)
    style = c.choose(2, 'call style')
    o = attempt(cls.response_to, content, rid) if style == 0 else attempt(cls.response_to, content, request_id=rid)
    c.prove(o[0] == 'ok', 'a reply can be built', show(o))
    s = encoded(c, w, o[1])
    c.prove(s[0] == 'ok', 'a reply can be encoded', show(s))
    eq(c, SymBytes.lift(s[1]), frame(False, 1, 0, 2, 1, rid, 11, 0, RESP_CLASS, b'', content), 'success reply: RESPONSE command, class name, the id, status 0')


@goal('C02', 'failure reply: echoes the request id, carries the status')
def fail_response(c):
    w = World(c)
    header_contracts(c)
    cls = w('anthunder.command.fail_response:FailResponse')
    RS = w('anthunder.protocol.constants:RESPSTATUS')
    rid = integer(c, 'request_id', -2 ** 31, 2 ** 31 - 1)
    st = member(c, RS, 'status')
    o = attempt(cls.response_to, rid, st)
    c.prove(o[0] == 'ok', 'a failure reply can be built', show(o))
    s = encoded(c, w, o[1])
    c.prove(s[0] == 'ok', 'a failure reply can be encoded', show(s))
    eq(c, SymBytes.lift(s[1]), frame(False, 1, 0, 2, 1, rid, 11, st.t, RESP_CLASS, b'', b''), 'failure reply: RESPONSE command, the id, the status')
    for n, v in STATUSES.items():
        c.prove(int(getattr(RS, n)) == v, 'status %s has its protocol number' % n)
    c.prove(len(list(RS)) == len(STATUSES), 'no other statuses')


@goal('C02', 'heartbeats: HEARTBEAT command, all sections empty')
def heartbeats(c):
    w = World(c)
    header_contracts(c)
    if c.choose(2, 'kind') == 0:
        ids = draws(c, w)
        o = attempt(w('anthunder.command.heartbeat:HeartbeatRequest').new_request)
        c.prove(o[0] == 'ok', 'a heartbeat can be built', show(o))
        c.prove(len(ids) == 1, 'exactly one request id is drawn')
        s = encoded(c, w, o[1])
        c.prove(s[0] == 'ok', 'a heartbeat can be encoded', show(s))
        b = SymBytes.lift(s[1])
        pre = cat(be_s(1, 1), be_s(1, 1), be_s(2, 0), be_s(1, 1), be_s(4, ids[0]), be_s(1, 11))
        c.prove(b.zlen() == 22, 'a heartbeat is the fixed header only')
        eq(c, SymBytes.lift(b[:10]), pre, 'heartbeat request: HEARTBEAT command and the drawn id')
        eq(c, SymBytes.lift(b[14:]), b'\0' * 8, 'heartbeat request: no class name, header or content')
    else:
        rid = integer(c, 'request_id', -2 ** 31, 2 ** 31 - 1)
        o = attempt(w('anthunder.command.heartbeat:HeartbeatResponse').response_to, rid)
        c.prove(o[0] == 'ok', 'a heartbeat reply can be built', show(o))
        s = encoded(c, w, o[1])
        c.prove(s[0] == 'ok', 'a heartbeat reply can be encoded', show(s))
        eq(c, SymBytes.lift(s[1]), frame(False, 1, 0, 0, 1, rid, 11, 0, b'', b'', b''), 'heartbeat reply: the id, HEARTBEAT command, all sections empty')
