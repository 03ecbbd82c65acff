"""what the contracts of the asyncio client share.

The client's tasks run on one event loop and share request_mapping, response_mapping, connection_mapping and _pending_dial.  Every
piece of code is verified alone, between two points where it gives up control, against what the others may do there (rely), and must
itself do nothing else (guarantee):
  ids         a caller adds, removes or replaces only entries of its own request id; a receiver changes entries of an id only when it
              received a frame with that id that somebody waits for: it removes the entry of request_mapping, sets its event, and stores
              in response_mapping, if anything, the response of exactly that id.
  connections an entry is added for an address only by a task that holds the lock of the address, found it absent and dialled the
              connection; it is removed only after a send on that very connection has failed.  Locks of addresses stay what they are."""
import asyncio, concurrent.futures as cf
from .kit import *
from pyvc.models import aio

INVOKE = 'anthunder.client.aio_client:AioClient.invoke'
GETCONN = 'anthunder.client.aio_client:AioClient._get_connection'
ADDRESS = 'anthunder.client.base:_BaseClient._get_address'
BUILD = 'anthunder.protocol._sofa_header:SofaHeader.build_header'
STARTUP = 'anthunder.mesh.mesh_client:MeshClient.startup'


class Ev(Opaque):
    """the event somebody waits for"""
    def set(self):
        C = sym.C()
        C.event('set', self)

    def is_set(self):
        return False


def client(c, w, mesh=False):
    """an AioClient; mesh: whether a mesh was found at construction (None: either)"""
    def startup(c, f, m):
        if mesh if mesh is not None else c.choose(2, 'a mesh is there') == 0:
            return None
        raise OSError(111, 'x')
    c.extra.setdefault('contracts', {})[STARTUP] = startup
    o = attempt(lambda: rt.call(w('anthunder:AioClient'), 'app'))
    c.prove(o[0] == 'ok', 'a client can be made', show(o))
    return o[1]


def addresses(c):
    """C23: the address of an interface is some (host, port)"""
    a = (text(c, 'host'), integer(c, 'port', 0, 65535))
    asked = []

    def get(c, f, cl, interface):
        asked.append(interface)
        return a
    c.extra.setdefault('contracts', {})[ADDRESS] = get
    return a, asked


def headers(c, w):
    """C20: the header of a call is some map of text to text that names the service"""
    def build(c, f, cls, *a, **k):
        c.extra['built'] = (a, k)
        h = header_map(c, w)
        c.extra['header'] = h
        return h
    d = c.extra.setdefault('contracts', {})
    d[BUILD] = build


def others(c, name, rid, val):
    """entries of other request ids"""
    m, K, V, n = sym_map(name, key='int', val='val')
    b = m.segs[0][1]
    m.segs = [('b', Bulk(b.n, b.keyfn, lambda i: val(V(i)), absent=[rid], ident=b.ident))]
    c.foralls.append(lambda i: c.assume(K(i) != sym.zi(rid)))
    return m


def lookup(m, k):
    p = PDict._find(m, k)
    return None if p is None else m._getat(p)


def same_entries(c, now, then, x, what):
    """the entry of x is the same in both maps"""
    a, b = lookup(now, x), lookup(then, x)
    c.prove((a is None) == (b is None) and (a is None or a is b or core.zb(veq(a, b))), what)


class Maps(object):
    """request_mapping and response_mapping as one caller with its own request id sees them"""
    def __init__(self, c, w, cl, rid):
        self.c, self.w, self.cl, self.rid = c, w, cl, rid
        self.acted = None           # what a receiver did about this call
        self.resp = None
        self.req, self.res = rt.getattr_(cl, 'request_mapping'), rt.getattr_(cl, 'response_mapping')
        self.havoc()

    def own(self, m):
        """-> (own entry, entries of others)"""
        mine, rest = [], []
        for s in m.segs:
            if s[0] == 'e' and core.zb(veq(s[1], self.rid)) is not False and self.c.entails(core.zb(veq(s[1], self.rid))):
                mine.append(s)
            else:
                rest.append(s)
        return mine, rest

    def havoc(self):
        for m, nm, val in ((self.req, 'waiting', Ev), (self.res, 'responses', Opaque)):
            mine, rest = self.own(m)
            o = others(self.c, nm, self.rid, val)
            m._set('segs', mine + o.segs)
            d = PDict()
            d.segs = [('b', o.segs[0][1].clone())]
            setattr(self, 'base_' + nm, d)

    def guarantee(self, when):
        """this caller left the entries of other ids alone"""
        c = self.c
        for attr, m, base in (('request_mapping', self.req, self.base_waiting), ('response_mapping', self.res, self.base_responses)):
            c.prove(rt.getattr_(self.cl, attr) is m, '%s: the client keeps its maps' % when)
            mine, rest = self.own(m)
            b0 = base.segs[0][1]
            if len(rest) == 1 and rest[0][0] == 'b' and rest[0][1].keyfn is b0.keyfn and not rest[0][1].over and not rest[0][1].removed:
                continue
            x = c.fresh('other_id', I)
            c.assume(x != sym.zi(self.rid))
            same_entries(c, m, base, mkint(x), '%s: the entries of other calls are left alone' % when)

    def waiting(self):
        mine, rest = self.own(self.req)
        return mine[0][2] if mine else None

    def receive(self, kinds=('bad', 'ok')):
        """a receiver may find a frame with this id: it removes the entry, sets the event, and stores the response when it is acceptable"""
        c = self.c
        ev = self.waiting()
        if ev is None:
            return
        j = c.choose(1 + len(kinds), 'a response arrives')
        if j == 0:
            return
        mine, rest = self.own(self.req)
        self.req._set('segs', rest)
        self.acted = kinds[j - 1]
        if self.acted == 'ok':
            self.resp = response(c, self.w, self.rid)
            self.res._set('segs', [('e', self.rid, self.resp)] + [s for s in self.res.segs if not (s[0] == 'e' and s in self.own(self.res)[0])])
        rt.callm(ev, 'set')

    def clean(self, what):
        self.guarantee(what)
        self.c.prove(not self.own(self.req)[0] and not self.own(self.res)[0], '%s: nothing is left behind for its id' % what,
                     lambda: '%s %s' % (rep(self.req), rep(self.res)))


def response(c, w, rid):
    """what a receiver stores: a decoded response with this id, never a REQUEST"""
    E = 'anthunder.protocol.constants:'
    cmd = member(c, w(E + 'CMDCODE'), 'resp_cmd')
    c.assume(cmd.t != 1)
    h = w('anthunder.protocol._sofa_header:empty_header')
    o = rt.call(w('anthunder.protocol:BoltResponse'), h, bytestr(c, 'resp_content'), ptype=member(c, w(E + 'PTYPE'), 'resp_ptype'), cmdcode=cmd,
                request_id=rid, respstatus=member(c, w(E + 'RESPSTATUS'), 'resp_status'), codec=member(c, w(E + 'CODEC'), 'resp_codec'))
    return o


def drawn(c):
    """C05: the id drawn for a request is not the id of any other call in progress"""
    ids = []

    def hook(cyc):
        v = integer(c, 'drawn', 0, 2 ** 31 - 1)
        ids.append(v)
        return v
    c.extra['cycle_hook'] = hook
    return ids


class Conns(object):
    """contract of _get_connection: the live connection mapped for the address afterwards, or an error; none on which a send of this call failed"""
    def __init__(self, c, cl, addr, refuse=True):
        self.c, self.cl, self.addr, self.refuse = c, cl, addr, refuse
        self.map = rt.getattr_(cl, 'connection_mapping')
        self.used = []
        self.asked = []
        c.extra.setdefault('contracts', {})[GETCONN] = self.get

    def get(self, c, f, cl, address):
        def go():
            self.asked.append(address)
            aio.suspend('connection', address)
            if self.refuse and c.choose(2, 'a connection is there') == 1:
                raise OSError(111, 'x')
            pair = (aio.Task(None), aio.StreamWriter())
            self.used.append(pair)
            self.map._set('segs', [('e', self.addr, pair)])
            return pair
        return aio.Aw(go)


class Call(object):
    """one call of invoke among arbitrary others"""
    def __init__(self, c, w, cl, request, kinds=('bad', 'ok'), when=('connection', 'drain', 'event'), refuse=True):
        self.c, self.cl, self.request = c, cl, request
        self.rid = rt.getattr_(request, 'request_id')
        self.addr, self.asked = addresses(c)
        self.conns = Conns(c, cl, self.addr, refuse)
        self.maps = Maps(c, w, cl, self.rid)
        self.kinds, self.when = kinds, when
        self.data = None
        c.extra['on_suspend'] = self.suspend
        c.extra['cheap'] = True

    def suspend(self, what, *a):
        m = self.maps
        m.guarantee('waiting for ' + what)
        m.havoc()
        if what in self.when:
            m.receive(self.kinds)

    def run(self, *a, **k):
        self.o = attempt_co(lambda: rt.callm(self.cl, 'invoke', self.request, *a, **k))
        return self.o


def request(c, w, kind=None):
    """an arbitrary request of one kind: a call, a one-way call, a heartbeat"""
    header_contracts(c)
    drawn(c)
    kind = kind or ('call', 'oneway', 'heartbeat')[c.pick(3, 'kind of request')]
    if kind == 'heartbeat':
        r = rt.call(w('anthunder.command.heartbeat:HeartbeatRequest').new_request)
    else:
        P = w('anthunder.protocol.constants:PTYPE')
        h = header_map(c, w)
        t = text(c, 'service')
        PDict._put(h, 'service', t)
        content = bytestr(c, 'content')
        c.assume(z3.Length(content.term()) < 2 ** 32)
        r = attempt(lambda: rt.call(w('anthunder.protocol:BoltRequest').new_request, h, content, ptype=P.ONEWAY if kind == 'oneway' else P.REQUEST,
                                    timeout_ms=integer(c, 'timeout_ms', 1, 2 ** 31 - 1)))
        if r[0] == 'err':
            c.end()
        r = r[1]
    return kind, r
