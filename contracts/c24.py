"""C24: publishing."""
from .kit import *
from pyvc.models import web
from .c22 import jeq, plain, BASE
from .c23 import accepted


def listener(c, w, mesh):
    host, port = text(c, 'host'), integer(c, 'port', 0, 65535)
    app = text(c, 'app')
    o = attempt(lambda: rt.call(w('anthunder.listener.base_listener:BaseListener'), (host, port), app))
    c.prove(o[0] == 'ok', 'a listener can be made whatever the mesh does', show(o))
    posts = c.extra['posts']
    c.prove(len(posts) == 1, 'making a listener asks the mesh once')
    if accepted(c, posts[0]) != mesh:
        c.end()
    del posts[:]
    l = o[1]
    h = rt.getattr_(l, 'handler')
    m, K, V, n = sym_map('interfaces', val='val')
    rt.setattr_(h, 'interface_mapping', m)
    return l, port, app, K, n


def count_loop(c, n, what, per):
    """each iteration sends exactly one request, described by per; every interface gets an iteration"""
    st = {}
    c.extra['loop_head'] = lambda loop: st.__setitem__('n', len(c.extra['posts']))

    def backedge(loop, seg):
        posts = c.extra['posts'][st['n']:]
        if any(not c.entails(p.accepted()) for p in posts) and not all(accepted(c, p) for p in posts):
            c.end()
        c.prove(len(posts) == 1, what + ': exactly one request per interface', '%d' % len(posts))
        per(loop.k, posts[0])
    c.extra['loop_backedge'] = backedge


def finish(c, o, n, what):
    if o[0] == 'err':
        # the mesh refused one
        posts = c.extra['posts']
        c.prove(len(posts) == 1 and core.zb(z3.Not(posts[0].accepted())), what + ' fails only if the mesh refuses', show(o))
        c.cover('refused')
        return
    c.prove(not c.extra['posts'], what + ': no other requests')
    done = [e for e in c.trace if e[0] == 'loop-end']
    if done:
        c.prove(len(done) == 1 and core.zb(done[0][2] == n), what + ': every registered interface')
    else:
        c.prove(n == 0, what + ': every registered interface')
    c.cover('all')


@goal('C24', 'publish: one publish request per registered interface', covers=('all', 'one', 'refused'))
def publish(c):
    w = World(c)
    l, port, app, K, n = listener(c, w, True)

    def per(k, p):
        c.cover('one')
        c.prove(p.method == 'POST' and core.zb(veq(p.url, BASE + 'services/publish')), 'to the documented endpoint', rep(p.url))
        want = dict(serviceName=SymStr.atom(K(k)), port=rt.str_(port), protocolType='DEFAULT', onlyPublishInCloud=False,
                    providerMetaInfo=dict(protocol='1', version='4.0', serializeType='protobuf', appName=app))
        c.prove(jeq(plain(p.json), want), 'the interface, the port as text and the provider description', '%s' % rep(plain(p.json)))
    count_loop(c, n, 'publish', per)
    finish(c, attempt(lambda: rt.callm(l, 'publish')), n, 'publish')


@goal('C24', 'unpublish: one unpublish request per registered interface', covers=('all', 'one', 'refused'))
def unpublish(c):
    w = World(c)
    l, port, app, K, n = listener(c, w, True)

    def per(k, p):
        c.cover('one')
        c.prove(p.method == 'POST' and core.zb(veq(p.url, BASE + 'services/unpublish')), 'to the documented endpoint', rep(p.url))
        c.prove(jeq(plain(p.json), dict(serviceName=SymStr.atom(K(k)))), 'naming the interface', '%s' % rep(plain(p.json)))
    count_loop(c, n, 'unpublish', per)
    finish(c, attempt(lambda: rt.callm(l, 'unpublish')), n, 'unpublish')


@goal('C24', 'without a mesh nothing is sent', covers=('nothing',))
def no_mesh(c):
    w = World(c)
    l, port, app, K, n = listener(c, w, False)
    op = ('publish', 'unpublish')[c.pick(2, 'operation')]
    c.extra['loop_backedge'] = lambda loop, seg: c.prove(not c.extra['posts'], 'without a mesh nothing is sent')
    o = attempt(lambda: rt.callm(l, op))
    c.prove(o[0] == 'ok', 'without a mesh nothing fails', show(o))
    c.prove(not c.extra['posts'], 'without a mesh nothing is sent')
    c.cover('nothing')


@goal('C24', 'construction never fails because of the mesh', covers=('made',))
def construct(c):
    w = World(c)

    def strange(p):
        # failures of any kind below the request
        e = [None, OSError('x'), ValueError('x'), RuntimeError('x')][c.choose(4, 'kind of failure')]
        if e is not None:
            p.failed = e
            raise e
    c.extra['on_http'] = strange
    app = text(c, 'app')
    kw = {}
    if c.pick(2, 'options') == 1:
        kw = dict(data_center=text(c, 'dc'), zone='', registry_end_point=None, is_antsharecloud=True, access_key='k', secret_key='s')
    if c.pick(2, 'client or listener') == 0:
        o = attempt(lambda: rt.call(w('anthunder.client.base:_BaseClient'), app, **kw))
    else:
        o = attempt(lambda: rt.call(w('anthunder.listener.base_listener:BaseListener'), ('h', 1), app, **kw))
    c.prove(o[0] == 'ok', 'a mesh that cannot be reached does not make construction fail', show(o))
    c.cover('made')
