"""C20: trace context propagates unchanged from caller to service."""
from .kit import *
from . import c19
import opentracing

TM = opentracing.Format.TEXT_MAP
PRE = 'rpc_trace_context.'
OWN = ('sofaTraceId', 'sofaRpcId')
NAMED = ('self', 'reference')


def prefixed(k):
    return SymStr.lift(PRE + k) if isinstance(k, str) else SymStr.lift(SymStr.lift(PRE) + k)


def baggage_map(c, name, avoid, val=None):
    """an arbitrary map of baggage items; the items named in `avoid` are not in it"""
    if val is None:
        val = ('str', 'val')[c.pick(2, 'items are texts / any values')]
    m, K, V, n = sym_map(name, val=val)
    b = m.segs[0][1]
    b.absent.extend(avoid)
    c.foralls.append(lambda i: [c.assume(K(i) != sym.zstr(a)) for a in avoid] and None)
    c.track(name + '.n', mkint(n))
    wrap = SymStr.atom if val == 'str' else Opaque
    return m, (lambda i: SymStr.atom(K(i))), (lambda i: wrap(V(i))), n


class Ctx0(object):
    """an arbitrary context built by SpanContext(**items)"""


def context(c, w, name='items', few=False):
    x = Ctx0()
    x.m, x.K, x.V, x.n = baggage_map(c, name, OWN + NAMED, 'val' if few else None)
    kw = [(None, x.m)]
    x.trace = x.rpc = None
    if not few and c.pick(2, 'trace id given') == 0:
        x.trace = text(c, name + '.trace')
        kw.append(('sofaTraceId', x.trace))
    if not few and c.pick(2, 'rpc id given') == 0:
        x.rpc = text(c, name + '.rpc')
        kw.append(('sofaRpcId', x.rpc))
    o = attempt(lambda: rt.callx(w('mytracer:SpanContext'), (), tuple(kw)))
    if o[0] == 'err':
        c.prove(x.rpc is not None, 'a context can be built from any items', show(o))
        c.prove(isinstance(o[1], (TypeError, ValueError)), 'a context with an invalid rpc id is rejected with an error', show(o))
        c.end()
    x.ctx = o[1]
    return x


def size(m):
    if isinstance(m, PDict):
        return m.zlen()
    return z3.IntVal(len(m))


def get(c, m, k, what):
    o = attempt(lambda: rt.getitem(m, k))
    c.prove(o[0] == 'ok', what, show(o))
    return o[1]


def generic(c, n, name='item'):
    i = c.fresh(name, I)
    c.assume(z3.And(i >= 0, i < n))
    c.instantiate(i)
    c.witness.append(i)
    return i


def same(c, a, b, what):
    c.prove(a is b or core.zb(veq(a, b)), what, '%s == %s' % (rep(a), rep(b)))


def bag(x):
    return rt.getattr_(x, 'baggage')


def segments(rid):
    return rt.to_plist(rt.getattr_(rid, 'rpcids'))


def seg_same(c, a, b, what):
    if a is b:
        c.prove(True, what)
    else:
        c.prove(core.zb(veq(a, b)), what)


@goal('C20', 'SpanContext: the items given', covers=('built',))
def build(c):
    w = World(c)
    x = context(c, w)
    c.cover('built')
    b = bag(x.ctx)
    i = generic(c, x.n)
    same(c, get(c, b, x.K(i), 'every item is in the baggage'), x.V(i), 'every item keeps its value')
    c.prove(size(b) == x.n + 2, 'nothing but the given items, the trace id and the rpc id')
    t = get(c, b, 'sofaTraceId', 'there is a trace id')
    if x.trace is not None:
        same(c, rt.str_(t), x.trace, 'the given trace id')
    r = get(c, b, 'sofaRpcId', 'there is an rpc id')
    if x.rpc is None:
        same(c, rt.str_(r), '1', 'the default rpc id')
    o = attempt(lambda: rt.call(lambda: b.__setitem__('x', 'y')))
    c.prove(o[0] == 'err' and isinstance(o[1], TypeError), 'the baggage is not open to assignment', show(o))


def derive(c, w, x):
    """a child or follow-up context of x.ctx, by any of the ways to ask for one"""
    tr = rt.call(w('mytracer:MyTracer'))
    R, T = opentracing.Reference, opentracing.ReferenceType
    way = c.pick(8, 'way of deriving')
    child = True
    if way == 0:
        f = lambda: rt.getattr_(rt.callm(tr, 'start_span', 'op', child_of=x.ctx), 'context')
    elif way == 1:
        sp = rt.call(w('mytracer:MySpan'), tr, x.ctx)
        f = lambda: rt.getattr_(rt.callm(tr, 'start_span', 'op', child_of=sp), 'context')
    elif way in (2, 3):
        child = way == 2
        f = lambda: rt.getattr_(rt.callm(tr, 'start_span', 'op', references=R(T.CHILD_OF if child else T.FOLLOWS_FROM, x.ctx)), 'context')
    elif way in (4, 5):
        child = way == 4
        f = lambda: rt.getattr_(rt.callm(tr, 'start_span', 'op', references=PList.of([R(T.CHILD_OF if child else T.FOLLOWS_FROM, x.ctx)])), 'context')
    else:
        child = way == 6
        f = lambda: rt.call(w('mytracer:SpanContext'), R(T.CHILD_OF if child else T.FOLLOWS_FROM, x.ctx))
    o = attempt(f)
    c.prove(o[0] == 'ok', 'a context can be derived', show(o))
    return o[1], child


@goal('C20', 'derived contexts keep trace id and items, change only the rpc id', covers=('child', 'follow'))
def derived(c):
    w = World(c)
    x = context(c, w)
    pb = bag(x.ctx)
    t0, r0 = rt.getitem(pb, 'sofaTraceId'), rt.getitem(pb, 'sofaRpcId')
    ts, rs = rt.str_(t0), PList(segments(r0))
    k = 1 + c.pick(2, 'derivations')
    for _ in range(k):
        y, child = derive(c, w, x)
        if x.rpc is not None:
            break
    c.cover('child' if child else 'follow')
    b = bag(y)
    i = generic(c, x.n)
    same(c, get(c, b, x.K(i), 'every item of the parent is in the derived context'), x.V(i), 'every item keeps its value')
    c.prove(size(b) == x.n + 2, 'the derived context has no other items')
    t = get(c, b, 'sofaTraceId', 'there is a trace id')
    same(c, t, t0, 'the trace id is kept')
    same(c, rt.str_(t), ts, 'the trace id prints the same')
    r = segments(get(c, b, 'sofaRpcId', 'there is an rpc id'))
    n = rs.zlen()
    if child:
        c.prove(r.zlen() == n + 1, "a child's rpc id has one more segment")
        j = generic(c, n, 'seg')
        seg_same(c, r.at(j), rs.at(j), "a child's rpc id extends its parent's")
    else:
        c.prove(r.zlen() == n, "a follow-up's rpc id has as many segments")
        j = generic(c, n - 1, 'seg')
        seg_same(c, r.at(j), rs.at(j), "a follow-up's rpc id has the same leading segments")
    # the parent
    b = bag(x.ctx)
    same(c, get(c, b, x.K(i), 'the parent still has every item'), x.V(i), "the parent's items are unchanged")
    c.prove(size(b) == x.n + 2, 'the parent gets no other items')
    same(c, rt.getitem(b, 'sofaTraceId'), t0, "the parent's trace id is unchanged")
    r = segments(rt.getitem(b, 'sofaRpcId'))
    c.prove(r.zlen() == n, "the parent's rpc id is unchanged")
    j = generic(c, n, 'seg')
    seg_same(c, r.at(j), rs.at(j), "the parent's rpc id is unchanged")


def texts_of(x):
    """text of the rpc id and of the trace id of a context"""
    b = bag(x)
    return rt.str_(rt.getitem(b, 'sofaTraceId')), rt.str_(rt.getitem(b, 'sofaRpcId'))


@goal('C20', 'inject: every item as text under the prefix', covers=('injected',))
def inject(c):
    w = World(c)
    x = context(c, w)
    tr = rt.call(w('mytracer:MyTracer'))
    ts, rs = texts_of(x.ctx)
    q = text(c, 'other')
    v = text(c, 'otherval')
    carrier = PDict()
    had = c.pick(2, 'carrier has another entry') == 0
    if had:
        c.assume(z3.Not(z3.PrefixOf(z3.StringVal(PRE), q.term())))
        carrier[q] = v
    o = attempt(lambda: rt.callm(tr, 'inject', x.ctx, TM, carrier))
    c.prove(o[0] == 'ok', 'a context can be injected', show(o))
    c.cover('injected')
    i = generic(c, x.n)
    same(c, get(c, carrier, prefixed(x.K(i)), 'every item is injected under the prefix'), rt.str_(x.V(i)), 'every item is injected as its text')
    same(c, get(c, carrier, PRE + 'sofaTraceId', 'the trace id is injected'), ts, 'the trace id is injected as text')
    same(c, get(c, carrier, PRE + 'sofaRpcId', 'the rpc id is injected'), rs, 'the rpc id is injected as text')
    c.prove(size(carrier) == x.n + 2 + (1 if had else 0), 'nothing else is injected')
    if had:
        same(c, get(c, carrier, q, 'other entries of the carrier stay'), v, 'other entries of the carrier are unchanged')
    c.prove(size(bag(x.ctx)) == x.n + 2, 'injecting does not change the context')


def last_is_number(c, t):
    l = rt.split_all(t, '.')
    return sym.U_INTOK(l.at(z3.simplify(l.zlen() - 1)).term())


@goal('C20', 'extract from what inject and build_header make: every item, with the same text, and nothing else', covers=('accepted', 'rejected'))
def extract(c):
    extracting(c)


def extracting(c):
    w = World(c)
    c.extra['cheap'] = True
    x = Ctx0()
    x.m, x.K, x.V, x.n = baggage_map(c, 'carrier', OWN + NAMED, 'str')
    b = x.m.segs[0][1]
    segs = [('b', Bulk(b.n, lambda i: prefixed(x.K(i)), x.V, absent=[PRE + a for a in OWN + NAMED]))]
    trace = text(c, 'trace')
    segs.append(('e', PRE + 'sofaTraceId', trace))
    rpc = text(c, 'rpc')
    segs.append(('e', PRE + 'sofaRpcId', rpc))
    others = c.pick(3, 'entries without the prefix: none, before, after')
    if others:
        m, QK, QV, qn = baggage_map(c, 'others', [PRE + a for a in OWN + NAMED], 'str')
        c.foralls.append(lambda i: c.assume(z3.Not(z3.PrefixOf(z3.StringVal(PRE), QK(i).term()))))
        segs = [m.segs[0]] + segs if others == 1 else segs + [m.segs[0]]
    carrier = w('anthunder.protocol:SofaHeader')() if others == 1 else PDict()
    carrier._set('segs', segs)
    tr = rt.call(w('mytracer:MyTracer'))
    o = attempt(lambda: rt.callm(tr, 'extract', TM, carrier))
    if o[0] == 'err':
        c.cover('rejected')
        c.prove(isinstance(o[1], opentracing.InvalidCarrierException), "a carrier is rejected with the tracing API's error", show(o))
        c.prove(z3.Not(last_is_number(c, rpc)), 'only a carrier with an invalid rpc id is rejected')
        return
    c.cover('accepted')
    c.prove(last_is_number(c, rpc), 'a carrier with an invalid rpc id is rejected')
    b = bag(o[1])
    i = generic(c, x.n)
    same(c, rt.str_(get(c, b, x.K(i), 'every item is given back')), x.V(i), 'every item is given back with the same text')
    same(c, rt.str_(get(c, b, 'sofaTraceId', 'there is a trace id')), trace, 'the trace id is given back')
    c.prove(size(b) == x.n + 2, 'nothing else is given back')


@goal('C20', "the rpc id's text survives extraction", covers=('extracted',))
def rpc_text(c):
    w = World(c)
    a, n, num, iv, tv = c19.make(c, w, 'id')
    if a[0] == 'err':
        return
    c.foralls.append(lambda i: c.assume(z3.Implies(z3.Not(num(i)), z3.Not(z3.Contains(tv(i), z3.StringVal('.'))))))
    s = rt.str_(a[1])
    carrier = PDict()
    carrier[PRE + 'sofaRpcId'] = s
    tr = rt.call(w('mytracer:MyTracer'))
    o = attempt(lambda: rt.callm(tr, 'extract', TM, carrier))
    c.prove(o[0] == 'ok', 'the text of an rpc id is accepted', show(o))
    c.cover('extracted')
    r = get(c, bag(o[1]), 'sofaRpcId', 'there is an rpc id')
    was, now = segments(a[1]), segments(r)
    c.prove(now.zlen() == was.zlen(), 'as many segments')
    i = generic(c, n, 'seg')
    same(c, rt.str_(now.at(i)), rt.str_(was.at(i)), 'every segment prints the same')
    same(c, rt.str_(r), s, 'the rpc id prints the same')


@goal('C20', 'carriers that denote no context, other formats', covers=('checked',))
def invalid(c):
    w = World(c)
    tr = rt.call(w('mytracer:MyTracer'))
    UF, IC = opentracing.UnsupportedFormatException, opentracing.InvalidCarrierException
    way = c.pick(6, 'carrier')
    if way == 0:
        carrier = None
    elif way == 1:
        carrier = integer(c, 'carrier')
    elif way == 2:
        carrier = PDict()
        PDict._put(carrier, PRE + 'sofaRpcId', integer(c, 'rpc'))
    elif way == 3:
        carrier = PDict()
        PDict._put(carrier, PRE + 'sofaRpcId', None)
    elif way == 4:
        carrier = PDict()
        PDict._put(carrier, 5, text(c, 'v'))
    else:
        f = text(c, 'format')
        c.assume(f.term() != z3.StringVal(TM))
        o = attempt(lambda: rt.callm(tr, 'extract', f, sym_map('carrier', val='str')[0]))
        isexc(c, o, UF, 'another format is rejected as unsupported')
        p = attempt(lambda: rt.callm(tr, 'inject', rt.call(w('mytracer:SpanContext')), f, PDict()))
        isexc(c, p, UF, 'another format is rejected as unsupported')
        c.cover('checked')
        return
    o = attempt(lambda: rt.callm(tr, 'extract', TM, carrier))
    isexc(c, o, IC, "a carrier that denotes no context is rejected with the tracing API's error")
    c.cover('checked')


HEAD = ('sofa_head_target_service', 'sofa_head_method_name', 'sofa_head_target_app', 'service', 'uid')
ARGS = ('cls', 'spanctx', 'interface', 'method_name', 'target_app')


def header_case(c, w, extras=True):
    c.extra['cheap'] = True
    x = context(c, w, few=True)
    h = Ctx0()
    h.x = x
    h.ts, h.rs = texts_of(x.ctx)
    h.interface, h.method = text(c, 'interface'), text(c, 'method')
    kw = []
    h.app = h.uid = ''
    if c.pick(2, 'target application and uid given') == 0:
        h.app, h.uid = text(c, 'app'), text(c, 'uid')
        kw += [('target_app', h.app), ('uid', h.uid)]
    h.extra = h.E = None
    if extras and c.pick(2, 'extra headers given') == 0:
        h.extra, h.E, h.F, h.en = baggage_map(c, 'extra', HEAD + ARGS + NAMED, 'str')
        kw.append((None, h.extra))
    o = attempt(lambda: rt.callx(rt.getattr_(w('anthunder.protocol:SofaHeader'), 'build_header'),
                                 (('.', x.ctx), ('.', h.interface), ('.', h.method)), tuple(kw)))
    c.prove(o[0] == 'ok', 'a header can be built', show(o))
    h.h = o[1]
    return h


@goal('C20', 'build_header: target, user and every item under the trace prefix', covers=('built',), parallel=True)
def header(c):
    w = World(c)
    h = header_case(c, w)
    x = h.x
    c.cover('built')
    m = h.h
    for k, v in zip(HEAD, (h.interface, h.method, h.app, h.interface, h.uid)):
        same(c, get(c, m, k, 'header %s is there' % k), v, 'header %s' % k)
    i = generic(c, x.n)
    same(c, get(c, m, prefixed(x.K(i)), 'every item is in the header under the trace prefix'), rt.str_(x.V(i)), 'every item is in the header as text')
    same(c, get(c, m, PRE + 'sofaTraceId', 'the trace id is in the header'), h.ts, 'the trace id is in the header as text')
    same(c, get(c, m, PRE + 'sofaRpcId', 'the rpc id is in the header'), h.rs, 'the rpc id is in the header as text')
    if h.extra is None:
        c.prove(PDict.zlen(m) == x.n + 2 + 5, 'the header has no other entries')
