"""C22: mesh control calls.

Every reachable state of a mesh client is, attribute by attribute, one of two: fresh, or started (proved: a failed start-up leaves
a fresh client fresh, a successful one makes it started, a start-up of a started client leaves it as it is).  The contract of
start-up is proved from both.  Interleavings: registration happens inside the client's lock; whenever the lock is taken another
thread may have completed a start-up before."""
from .kit import *
from pyvc.models import web

BASE = 'http://127.0.0.1:13330/'
FIELDS = ('appName', 'dataCenter', 'zone', 'registryEndPoint', 'accessKey', 'secretKey', 'antShareCloud')


def plain(x):
    """a JSON value as python containers (specification)"""
    if isinstance(x, PDict):
        if not x.concrete():
            raise Unsupported('symbolic payload')
        return {s[1]: plain(s[2]) for s in x.segs}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (PList, list, tuple)):
        return [plain(v) for v in (x.vals() if isinstance(x, PList) else x)]
    return x


def jeq(a, b):
    """z3 / bool: equal JSON values"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        rs = [jeq(a[k], b[k]) for k in a]
        return False if any(r is False for r in rs) else z3.And(*[core.zb(r) for r in rs])
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a.t == b.t
    return veq(a, b)


def sent(c, posts, url, payload, what):
    c.prove(len(posts) == 1, what + ': exactly one request', '%d requests' % len(posts))
    p = posts[0]
    c.prove(p.method == 'POST', what + ': a POST', p.method)
    c.prove(core.zb(veq(p.url, BASE + url)), what + ': to the documented endpoint', rep(p.url))
    j = jeq(plain(p.json), payload)
    c.prove(j, what + ': with the documented payload', '%s / %s' % (rep(plain(p.json)), rep(payload)))
    return p


def outcome(c, o, p, w, what):
    """the reply is returned exactly if status 200 and success true"""
    if o[0] == 'ok':
        c.cover('accepted')
        c.prove(p.accepted(), what + ': succeeds only if the mesh says so', show(o))
        return True
    c.prove(z3.Not(p.accepted()), what + ': fails only if the mesh did not accept', show(o))
    if p.failed is None and (isinstance(p.reply, PDict) or not c.entails(p.status.t == 200)):
        c.cover('refused')
        c.prove(isinstance(o[1], web.ConnectionError), what + ': a connection error when the mesh answers with another status or without success', show(o))
    else:
        c.cover('unreachable')
        c.prove(isinstance(o[1], Exception), what + ': an error', show(o))
    return False


def client(c, w, info=None):
    MC = w('anthunder.mesh.mesh_client:MeshClient')
    if info is None:
        info = rt.call(w('anthunder.mesh.mesh_client:ApplicationInfo'), text(c, 'app'))
    o = attempt(lambda: rt.call(MC, info))
    c.prove(o[0] == 'ok', 'a mesh client can be made', show(o))
    c.prove(not c.extra.get('posts'), 'making a client sends nothing')
    return o[1]


@goal('C22', 'subscribe, unsubscribe, publish, unpublish', covers=('accepted', 'refused', 'unreachable'))
def operations(c):
    w = World(c)
    m = client(c, w)
    name = text(c, 'service')
    k = c.pick(4, 'operation')
    if k == 2:
        M = 'anthunder.mesh.mesh_client:'
        pr, ver, ser, app, port = (text(c, x) for x in ('protocol', 'version', 'serializeType', 'appName', 'port'))
        pm = rt.call(w(M + 'ProviderMetaInfo'), protocol=pr, version=ver, serializeType=ser, appName=app)
        kw = {}
        ptype, only = 'DEFAULT', False
        if c.pick(2, 'options') == 1:
            ptype, only = text(c, 'protocolType'), True
            kw = dict(protocolType=ptype, onlyPublishInCloud=only)
        req = rt.call(w(M + 'PublishServiceRequest'), serviceName=name, providerMetaInfo=pm, port=port, **kw)
        payload = dict(serviceName=name, providerMetaInfo=dict(protocol=pr, version=ver, serializeType=ser, appName=app), port=port,
                       protocolType=ptype, onlyPublishInCloud=only)
        op, arg = 'publish', req
    else:
        op, arg, payload = [('subscribe', name, dict(serviceName=name)), ('unsubscribe', name, dict(serviceName=name)), None, ('unpublish', name, dict(serviceName=name))][k]
    o = attempt(lambda: rt.callm(m, op, arg))
    p = sent(c, c.extra.get('posts', []), 'services/' + op, payload, op)
    if outcome(c, o, p, w, op):
        c.prove(o[1] is p.reply, op + ': the reply is returned')


def state(m):
    return {k: v for k, v in vars(m).items()}


def eqstate(a, b):
    from pyvc.loops import same_value
    return set(a) == set(b) and all(a[k] is b[k] or same_value(a[k], b[k]) for k in a)


def app_info(c, w):
    # every field set or not
    vals = {}
    which = c.pick(3, 'fields')
    for f in FIELDS:
        if f == 'antShareCloud':
            vals[f] = mkbool(z3.Const('antShareCloud', B))
        elif which == 0 and f != 'appName':
            vals[f] = None
        elif which == 1 and f != 'appName':
            vals[f] = ''
        else:
            vals[f] = text(c, f)
    return rt.call(w('anthunder.mesh.mesh_client:ApplicationInfo'), **vals), vals


def payload(c, vals):
    r = {}
    for f in FIELDS:
        v = vals[f]
        if isinstance(v, SymStr):
            if c.decide(z3.Length(v.term()) > 0):
                r[f] = v
        elif isinstance(v, SymBool):
            if c.decide(v.t):
                r[f] = v
        elif v:
            r[f] = v
    return r


@goal('C22', 'startup: the application fields that are set, and no others, are registered', covers=('registered',))
def fields(c):
    w = World(c)
    info, vals = app_info(c, w)
    m = client(c, w, info)
    posts = c.extra.setdefault('posts', [])

    def on_http(p):
        sent(c, posts, 'configs/application', payload(c, vals), 'startup')
        c.cover('registered')
        c.end()
    c.extra['on_http'] = on_http
    o = attempt(lambda: rt.callm(m, 'startup'))
    c.prove(False, 'a fresh client registers', show(o))


@goal('C22', 'startup: registered exactly once, again after a failure', covers=('fresh', 'started', 'overtaken', 'accepted', 'refused', 'unreachable'))
def startup(c):
    w = World(c)
    locks = []
    other = {}

    def lock_hook(l, what):
        if l not in locks:
            locks.append(l)
        if what == 'acquire' and l.held == 1 and other.get('on') and c.choose(2, 'another thread has completed a start-up') == 1:
            c.cover('overtaken')
            other['overtaken'] = True
            for k, v in other['started'].items():
                setattr(other['m'], k, v)
    c.extra['lock_hook'] = lock_hook

    def on_http(p):
        c.prove(any(l.held for l in locks), 'registration happens inside the lock')
    c.extra['on_http'] = on_http
    app = text(c, 'appName')
    c.assume(z3.Length(app.term()) > 0)
    info = rt.call(w('anthunder.mesh.mesh_client:ApplicationInfo'), app)
    m = client(c, w, info)
    fresh = state(m)
    posts = c.extra.setdefault('posts', [])

    def once(what):
        del posts[:]
        return attempt(lambda: rt.callm(m, 'startup'))
    # a fresh client
    c.cover('fresh')
    o = once('startup')
    p = sent(c, posts, 'configs/application', dict(appName=app), 'startup')
    if not outcome(c, o, p, w, 'startup'):
        c.prove(not any(l.held for l in locks), 'the lock is released')
        c.prove(eqstate(state(m), fresh), 'a failed start-up leaves the client as it was: the next one tries again')
        return
    c.prove(not any(l.held for l in locks), 'the lock is released')
    started = state(m)
    c.cover('started')
    # a started client
    o = once('startup again')
    c.prove(o[0] == 'ok', 'starting again succeeds', show(o))
    c.prove(not posts, 'the application is registered at most once per successful start-up', '%d more requests' % len(posts))
    c.prove(eqstate(state(m), started), 'starting again changes nothing')
    # a fresh client, another thread may be faster
    for k in list(vars(m)):
        setattr(m, k, fresh[k])
    other.update(on=True, m=m, started={k: v for k, v in started.items() if v is not fresh[k]})
    o = once('startup in competition')
    if other.get('overtaken'):
        c.prove(o[0] == 'ok', 'start-up succeeds when another thread has registered', show(o))
        c.prove(not posts, 'the application is registered once under any interleaving', '%d more requests' % len(posts))
    else:
        c.prove(len(posts) == 1, 'a start-up nobody else has done registers', '%d' % len(posts))
