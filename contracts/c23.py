"""C23: service addresses.

The interface map is arbitrary (any number of entries, any addresses).  Subscribing and unsubscribing any number of interfaces is
specified per interface, from an arbitrary map at the start of each iteration."""
from .kit import *
from pyvc.containers import Opaque
from pyvc.models import web
from .c22 import jeq, plain, BASE

MESH = ('127.0.0.1', 12220)


def uf(name, *sorts):
    core.GLOBAL_UFS.add(name)
    return z3.Function(name, *sorts)


class Content(object):
    """an arbitrary content of the map"""
    count = 0
    def __init__(self, c, tag):
        self.n = c.fresh('mapped', I) if c.loops else z3.Const(c.name('mapped'), I)
        c.assume(self.n >= 0)
        self.K, self.V, self.IX = uf('map.key.' + tag, I, S), uf('map.val.' + tag, I, Opaque.VAL), uf('map.idx.' + tag, S, I)
        c.foralls.append(lambda i: c.assume(self.IX(self.K(i)) == i))

    def segs(self):
        return [('b', Bulk(self.n, lambda i: SymStr.atom(self.K(i)), lambda i: Opaque(self.V(i))))]

    def lookup(self, c, key):
        """index of key in the content or None (specification)"""
        j = self.IX(key.term())
        c.instantiate(j)
        if c.decide(z3.And(j >= 0, j < self.n, self.K(j) == key.term()), 'mapped before'):
            c.witness.append(j)
            return j
        return None


def value(m, key):
    p = PDict._find(m, key)
    return None if p is None else m._getat(p)


def same(a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.t == b.t
    if isinstance(a, (tuple, Rope, str)) and isinstance(b, (tuple, Rope, str)):
        return veq(a, b)
    return a is b


def others_kept(c, m, x, key, what):
    """all entries but that of key are as before, and no others"""
    i = c.fresh('other', I)
    c.assume(z3.And(i >= 0, i < x.n))
    c.instantiate(i)
    c.assume(x.K(i) != key.term())
    c.witness.append(i)
    v = value(m, SymStr.atom(x.K(i)))
    c.prove(v is not None and core.zb(same(v, Opaque(x.V(i)))), what + ': the other addresses are unchanged')


@goal('C23', 'assignment: a mapped interface is never rebound', covers=('refused', 'mapped'))
def assign(c):
    w = World(c)
    m = w('anthunder:SERVICE_MAP')
    x = Content(c, 'a')
    c.prove(isinstance(m, PDict) and not m.segs, 'the interface map starts empty')
    object.__setattr__(m, 'segs', x.segs())
    key = text(c, 'interface')
    val = ((lambda: text(c, 'host')), (lambda: (text(c, 'host'), integer(c, 'port'))))[c.pick(2, 'address')]()
    o = attempt(lambda: rt.SPEC().store(m, key, val))
    j = x.lookup(c, key)
    if j is not None:
        c.cover('refused')
        c.prove(o[0] == 'err' and isinstance(o[1], Exception), 'assigning to a mapped interface is refused', show(o))
        v = value(m, key)
        c.prove(v is not None and core.zb(same(v, Opaque(x.V(j)))), 'a refused assignment changes nothing')
        c.prove(PDict.zlen(m) == x.n, 'a refused assignment changes nothing')
    else:
        c.cover('mapped')
        c.prove(o[0] == 'ok', 'an interface that is not mapped can be assigned', show(o))
        v = value(m, key)
        c.prove(v is not None and core.zb(same(v, val)), 'the interface maps to the address assigned')
        c.prove(PDict.zlen(m) == x.n + 1, 'exactly one entry is added')
    others_kept(c, m, x, key, 'assignment')


def accepted(c, p):
    return c.decide(p.accepted(), 'accepted')


def connected(c, w, mesh=True):
    """a client whose start-up the mesh accepted (or not)"""
    o = attempt(lambda: rt.call(w('anthunder:Client'), 'app'))
    c.prove(o[0] == 'ok', 'a client can be made', show(o))
    posts = c.extra['posts']
    if len(posts) != 1 or accepted(c, posts[0]) != mesh:
        c.end()
    del posts[:]
    return o[1]


@goal('C23', 'a call goes to the mapped address, the default port, or the mesh', covers=('host', 'host and port', 'unmapped'))
def resolve(c):
    w = World(c)
    m = w('anthunder:SERVICE_MAP')
    cl = connected(c, w, False)
    x = Content(c, 'a')
    key = text(c, 'interface')
    c.assume(x.IX(key.term()) < 0)
    object.__setattr__(m, 'segs', x.segs())
    c.instantiate(x.IX(key.term()))
    k = c.pick(3, 'mapping')
    host = text(c, 'host')
    if k == 0:
        c.cover('host')
        PDict._put(m, key, host)
        want = (host, 12200)
    elif k == 1:
        c.cover('host and port')
        port = integer(c, 'port')
        PDict._put(m, key, (host, port))
        want = (host, port)
    else:
        c.cover('unmapped')
        want = MESH
    def check(a, what):
        a = rt.to_plist(a)
        c.prove(a.concrete() and len(a.vals()) == 2, what)
        c.prove(core.zb(veq(a.vals()[0], want[0])), what + ': host', '%s / %s' % (rep(a.vals()[0]), rep(want[0])))
        c.prove(core.zb(veq(a.vals()[1], want[1])), what + ': port', '%s / %s' % (rep(a.vals()[1]), rep(want[1])))
    o = attempt(lambda: rt.callm(cl, '_get_address', key))
    c.prove(o[0] == 'ok', 'every interface has an address', show(o))
    check(o[1], 'the address of an interface')
    # the blocking client asks the pool of exactly this address
    asked = []
    PM = w('mysockpool:PoolManager')

    class Recorder(rt.Model):
        PoolCls = PM.PoolCls
        def __init__(self, *a, **kw):
            pass
        def connection_pool_from_pool_key(self, k):
            asked.append(k)
            return 'pool'
    w('anthunder.client.client').PoolManager = Recorder
    o = attempt(lambda: rt.callm(cl, '_get_pool', key))
    c.prove(o[0] == 'ok' and len(asked) == 1, 'the blocking client connects through the pool of the address', show(o))
    check(asked[0], 'the address the blocking client connects to')


def per_interface(c, w, m, run, url, check):
    """drive run(interfaces) for arbitrarily many; check(interface, request, map before, map after) per iteration"""
    names, V, n = sym_list('interfaces')
    st = {}

    def havoc(loop, obj, attr):
        if obj is m and attr == 'segs':
            st['x'] = Content(c, 'it')
            return st['x'].segs()
    c.extra['loop_havoc'] = havoc

    def head(loop):
        st['loop'] = loop
        st['posts'] = len(c.extra['posts'])
        if 'x' not in st:
            st['x'] = Content(c, 'it')
            object.__setattr__(m, 'segs', st['x'].segs())

    def backedge(loop, seg):
        k = loop.k
        posts = c.extra['posts'][st['posts']:]
        inf = SymStr.atom(V(k))
        c.prove(len(posts) == 1, 'exactly one request per interface', '%d' % len(posts))
        p = posts[0]
        c.prove(p.method == 'POST' and core.zb(veq(p.url, BASE + url)), 'to the documented endpoint', rep(p.url))
        c.prove(jeq(plain(p.json), dict(serviceName=inf)), 'naming the interface', rep(plain(p.json)))
        check(inf, p, st['x'], m)
    c.extra['loop_head'] = head
    c.extra['loop_backedge'] = backedge
    o = attempt(lambda: run(names))
    c.prove(o[0] == 'ok', 'failures of one interface do not stop the others', show(o))
    done = [e for e in c.trace if e[0] == 'loop-end']
    c.prove(len(done) == 1 and core.zb(done[0][2] == n), 'every interface is dealt with')
    c.prove(not c.extra['posts'], 'no other requests')
    c.cover('done')


@goal('C23', 'subscribe: maps to the mesh exactly when accepted and not mapped', covers=('done', 'mapped', 'kept', 'refused'))
def subscribe(c):
    w = World(c)
    m = w('anthunder:SERVICE_MAP')
    cl = connected(c, w)

    def check(inf, p, x, m):
        j = x.lookup(c, inf)
        ok = accepted(c, p)
        v = value(m, inf)
        if j is not None:
            c.cover('kept')
            c.prove(v is not None and core.zb(same(v, Opaque(x.V(j)))), 'subscribing a mapped interface keeps its address')
            c.prove(PDict.zlen(m) == x.n, 'subscribing a mapped interface keeps its address')
        elif ok:
            c.cover('mapped')
            c.prove(v is not None and core.zb(same(v, MESH)), 'an accepted subscription maps the interface to the mesh', rep(v))
            c.prove(PDict.zlen(m) == x.n + 1, 'an accepted subscription maps the interface to the mesh')
        else:
            c.cover('refused')
            c.prove(v is None, 'a refused subscription maps nothing')
            c.prove(PDict.zlen(m) == x.n, 'a refused subscription maps nothing')
        others_kept(c, m, x, inf, 'subscribe')
    per_interface(c, w, m, lambda names: rt.callx(rt.getattr_(cl, 'subscribe'), (('*', names),), ()), 'services/subscribe', check)


@goal('C23', 'unsubscribe: removes the mapping exactly when accepted', covers=('done', 'removed', 'kept', 'unmapped'))
def unsubscribe(c):
    w = World(c)
    m = w('anthunder:SERVICE_MAP')
    cl = connected(c, w)

    def check(inf, p, x, m):
        j = x.lookup(c, inf)
        ok = accepted(c, p)
        v = value(m, inf)
        if j is None:
            c.cover('unmapped')
            c.prove(v is None, 'unsubscribing an interface that is not mapped changes nothing')
            c.prove(PDict.zlen(m) == x.n, 'unsubscribing an interface that is not mapped changes nothing')
        elif ok:
            c.cover('removed')
            c.prove(v is None, 'an accepted unsubscription removes the mapping')
            c.prove(PDict.zlen(m) == x.n - 1, 'an accepted unsubscription removes one mapping')
        else:
            c.cover('kept')
            c.prove(v is not None and core.zb(same(v, Opaque(x.V(j)))), 'a refused unsubscription keeps the mapping')
        others_kept(c, m, x, inf, 'unsubscribe')
    per_interface(c, w, m, lambda names: rt.callx(rt.getattr_(cl, 'unsubscribe'), (('*', names),), ()), 'services/unsubscribe', check)


@goal('C23', 'without a mesh both do nothing', covers=('nothing',))
def no_mesh(c):
    w = World(c)
    m = w('anthunder:SERVICE_MAP')
    cl = connected(c, w, False)
    x = Content(c, 'a')
    object.__setattr__(m, 'segs', x.segs())
    names, V, n = sym_list('interfaces')
    c.extra['loop_backedge'] = lambda loop, seg: c.prove(not c.extra['posts'], 'without a mesh no request is sent')
    op = ('subscribe', 'unsubscribe')[c.pick(2, 'operation')]
    o = attempt(lambda: rt.callx(rt.getattr_(cl, op), (('*', names),), ()))
    c.prove(o[0] == 'ok', 'without a mesh nothing fails', show(o))
    c.prove(not c.extra['posts'], 'without a mesh no request is sent')
    c.prove(PDict.zlen(m) == x.n, 'without a mesh the map is unchanged')
    i = c.fresh('entry', I)
    c.assume(z3.And(i >= 0, i < x.n))
    c.instantiate(i)
    c.witness.append(i)
    v = value(m, SymStr.atom(x.K(i)))
    c.prove(v is not None and core.zb(same(v, Opaque(x.V(i)))), 'without a mesh the map is unchanged')
    c.cover('nothing')
