"""C21: spans record what they are given; trace ids are unique."""
from .kit import *
from .c20 import generic, size, get, bag
import opentracing
R_, T_ = opentracing.Reference, opentracing.ReferenceType


def parent(c, w):
    """a context with arbitrary trace id and an arbitrary item"""
    t, v = text(c, 'trace'), text(c, 'item')
    o = attempt(lambda: rt.call(w('mytracer:SpanContext'), sofaTraceId=t, sofaRpcId='0.7', item=v))
    c.prove(o[0] == 'ok', 'a context can be built', show(o))
    return o[1], t, v


def kept(x, v):
    """v is among what the object records"""
    for a in vars(x).values():
        if a is v:
            return True
        if isinstance(a, (Rope, str, bytes)) and isinstance(v, (Rope, str, bytes)) or isinstance(a, (SymReal, SymInt, int, float)) and isinstance(v, (SymReal, SymInt, int, float)):
            e = veq(a, v)
            if e is True or e is not False and core.CUR.entails(core.zb(e)):
                return True
        if isinstance(a, Opaque) and isinstance(v, Opaque) and core.CUR.entails(a.t == v.t):
            return True
    return False


def derived(c, s, child, t, v, what):
    b = bag(rt.getattr_(s, 'context'))
    c.prove(core.zb(veq(rt.str_(get(c, b, 'sofaTraceId', what)), t)), what + ': the trace id')
    c.prove(core.zb(veq(get(c, b, 'item', what), v)), what + ': the items')
    r = rt.str_(get(c, b, 'sofaRpcId', what))
    c.prove(core.zb(veq(r, '0.7.1' if child else '0.8')), what + ': the rpc id', rep(r))
    c.prove(size(b) == 3, what + ': nothing else')


@goal('C21', 'start_span: name, tags, start time and context are recorded', covers=('root', 'child', 'follow', 'tags', 'started', 'no tags'))
def start(c):
    w = World(c)
    tr = rt.call(w('mytracer:MyTracer'))
    name = text(c, 'operation_name')
    kw = {}
    tk = c.pick(3, 'tags')
    m = None
    if tk == 0:
        m, K, V, n = sym_map('tags', val='val')
        c.track('tags.n', mkint(n))
        kw['tags'] = m
    elif tk == 1:
        kw['tags'] = None
    st = None
    s_ = c.pick(3, 'start time')
    if s_ == 0:
        st = SymReal(z3.Const('start', R))
        kw['start_time'] = st
    elif s_ == 1:
        kw['start_time'] = None
    way = c.pick(9, 'parent')
    child = None
    t = v = None
    if way in (2, 3, 4, 5, 6, 7, 8):
        p, t, v = parent(c, w)
        sp = rt.call(w('mytracer:MySpan'), tr, p)
    if way == 1:
        kw['child_of'] = None
        kw['references'] = PList.of([])
    elif way == 2:
        child, kw['child_of'] = True, p
    elif way == 3:
        child, kw['child_of'] = True, sp
    elif way in (4, 5):
        child = way == 4
        kw['references'] = R_(T_.CHILD_OF if child else T_.FOLLOWS_FROM, p)
    elif way in (6, 7):
        child = way == 6
        kw['references'] = PList.of([R_(T_.CHILD_OF if child else T_.FOLLOWS_FROM, p)])
    elif way == 8:
        # a parent given both ways: the explicit parent
        child, kw['child_of'] = True, p
        p2, _, _ = parent(c, w)
        kw['references'] = PList.of([R_(T_.FOLLOWS_FROM, p2)])
    o = attempt(lambda: rt.callm(tr, 'start_span', name, **kw))
    c.prove(o[0] == 'ok', 'a span can be started', show(o))
    s = o[1]
    c.prove(core.zb(veq(rt.getattr_(s, 'operation_name'), name)), 'the operation name is recorded')
    if st is not None:
        c.cover('started')
        c.prove(kept(s, st), 'the start time is recorded')
    if m is not None:
        c.cover('tags')
        maps = [x for x in vars(s).values() if isinstance(x, PDict) and x.segs]
        if c.decide(n > 0):
            c.prove(len(maps) == 1, 'the tags are recorded', '%d maps' % len(maps))
            i = generic(c, n)
            x = get(c, maps[0], SymStr.atom(K(i)), 'every tag is recorded')
            c.prove(isinstance(x, Opaque) and core.zb(x.t == V(i)), 'every tag is recorded with its value')
            c.prove(size(maps[0]) == n, 'nothing but the tags is recorded')
    else:
        c.cover('no tags')
        c.prove(not [x for x in vars(s).values() if isinstance(x, PDict) and x.segs], 'no tags are made up')
    if child is None:
        c.cover('root')
        b = bag(rt.getattr_(s, 'context'))
        c.prove(size(b) == 2, 'a root span has a fresh context')
        c.prove(core.zb(veq(rt.str_(get(c, b, 'sofaRpcId', 'a root span has an rpc id')), '1')), 'a root span has the root rpc id')
        c.prove(isinstance(get(c, b, 'sofaTraceId', 'a root span has a trace id'), w('mytracer:TraceId')), 'a root span has a trace id')
    else:
        c.cover('child' if child else 'follow')
        derived(c, s, child, t, v, 'the context is derived from the parent')


@goal('C21', 'helpers: new_span, child_span_of, follows_span_from', covers=('new', 'child', 'follow'))
def helpers(c):
    w = World(c)
    name = text(c, 'operation_name')
    a, b_ = text(c, 'tag_a'), integer(c, 'tag_b')
    kind = c.pick(3, 'helper')
    if kind == 0:
        o = attempt(lambda: rt.call(w('mytracer:new_span'), name, a=a, b=b_))
        c.cover('new')
        want = name
    else:
        p, t, v = parent(c, w)
        pn = text(c, 'parent_name')
        sp = rt.call(w('mytracer:MySpan'), rt.call(w('mytracer:MyTracer')), p)
        rt.callm(sp, 'set_operation_name', pn)
        args = (name,)
        want = name
        if c.pick(2, 'operation name given') == 1:
            args, want = (), pn
        elif c.decide(z3.Length(name.term()) == 0):
            want = pn
        o = attempt(lambda: rt.call(w('mytracer:child_span_of' if kind == 1 else 'mytracer:follows_span_from'), sp, *args, a=a, b=b_))
    c.prove(o[0] == 'ok', 'a span can be started', show(o))
    s = o[1]
    c.prove(core.zb(veq(rt.getattr_(s, 'operation_name'), want)), 'the operation name is recorded')
    maps = [x for x in vars(s).values() if isinstance(x, (PDict, dict)) and rt.len_(x)]
    c.prove(len(maps) == 1, 'the tags are recorded')
    m = maps[0]
    c.prove(core.zb(veq(get(c, m, 'a', 'every tag'), a)) if True else None, 'every tag is recorded with its value')
    c.prove(core.zb(veq(get(c, m, 'b', 'every tag'), b_)), 'every tag is recorded with its value')
    c.prove(size(m) == 2, 'nothing but the tags is recorded')
    if kind:
        c.cover('child' if kind == 1 else 'follow')
        derived(c, s, kind == 1, t, v, 'the context is derived from the parent')


class Boom(Exception):
    pass


@goal('C21', 'scope: leaving finishes the span and swallows nothing', covers=('normal', 'raised', 'explicit'))
def scope(c):
    w = World(c)
    tr = rt.call(w('mytracer:MyTracer'))
    o = attempt(lambda: rt.callm(tr, 'start_span', text(c, 'name')))
    c.prove(o[0] == 'ok', 'a span can be started', show(o))
    s = o[1]
    before = dict(vars(s))

    def finished():
        ch = [k for k, v in vars(s).items() if isinstance(v, SymReal) and before.get(k) is None]
        return len(ch) == 1
    if c.pick(2, 'scope or explicit') == 1:
        c.cover('explicit')
        o = attempt(lambda: rt.callm(s, 'finish'))
        c.prove(o[0] == 'ok', 'a span can be finished', show(o))
        c.prove(finished(), 'finish records the time')
        return
    o = attempt(lambda: rt.callm(s, '__enter__'))
    c.prove(o[0] == 'ok' and o[1] is s, "the scope's value is the span", show(o))
    c.prove(not finished(), 'a span is not finished before its scope ends')
    e = [None, Boom('x'), StopIteration(), KeyboardInterrupt(), GeneratorExit(), AttributeError('x'), TypeError('x')][c.pick(7, 'how the block ends')]
    o = attempt(lambda: rt.callm(s, '__exit__', *((None,) * 3 if e is None else (type(e), e, None))))
    c.cover('normal' if e is None else 'raised')
    c.prove(o[0] == 'ok', "leaving a scope does not replace the block's outcome", show(o))
    c.prove(o[1] is None or not o[1], 'leaving a scope swallows nothing', show(o))
    c.prove(finished(), 'leaving a scope finishes the span')


def decimal(c, x, y):
    """lemma, proved from the definition of decimal notation (dec(n) = digit(n) below 10, else dec(n div 10) then digit(n mod 10)):
    dec(x) followed by a four-digit dec(y) is dec(10000 x + y)"""
    D = z3.Function('dec', I, S)
    G = z3.Function('digit', I, S)
    sol = z3.Solver()
    sol.set('timeout', 60000)
    X, Y = z3.Ints('x y')
    hyp = z3.And(X >= 1, Y >= 1000, Y <= 9999)

    def define(n):
        sol.add(D(n) == z3.If(n < 10, G(n), z3.Concat(D(n / 10), G(n % 10))))
    # quotients and remainders by hand: t = 1000 a + 100 b + 10 d + e
    a_, b_, d_, e_ = z3.Ints('a b d e')
    sol.add(hyp, Y == 1000 * a_ + 100 * b_ + 10 * d_ + e_, *[z3.And(v >= 0, v <= 9) for v in (a_, b_, d_, e_)])
    n = 10000 * X + Y
    steps = [(n, 1000 * X + 100 * a_ + 10 * b_ + d_, e_), (1000 * X + 100 * a_ + 10 * b_ + d_, 100 * X + 10 * a_ + b_, d_),
             (100 * X + 10 * a_ + b_, 10 * X + a_, b_), (10 * X + a_, X, a_), (Y, 100 * a_ + 10 * b_ + d_, e_),
             (100 * a_ + 10 * b_ + d_, 10 * a_ + b_, d_), (10 * a_ + b_, a_, b_)]
    ok = True
    for v, q, r in steps:
        s2 = z3.Solver()
        s2.set('timeout', 20000)
        s2.add(sol.assertions())
        s2.add(z3.Not(z3.And(v == 10 * q + r, v >= 10, r >= 0, r <= 9)))
        ok = ok and s2.check() == z3.unsat
    facts = [D(v) == z3.Concat(D(q), G(r)) for v, q, r in steps] + [D(a_) == G(a_)]
    s3 = z3.Solver()
    s3.set('timeout', 60000)
    s3.add(*facts)
    s3.add(D(n) != z3.Concat(D(X), D(Y)))
    ok = ok and s3.check() == z3.unsat
    c.prove(ok, 'lemma: decimal notation of a number followed by four digits')


@goal('C21', 'trace ids: two of one process differ unless 8001 or more in a millisecond', covers=('same ms', 'different ms'))
def unique(c):
    w = World(c)
    T = w('mytracer:TraceId')
    n, d = integer(c, 'made_before', 0), integer(c, 'made_between', 0)
    o = attempt(rt.SPEC().two_made, lambda: timed(c, T), n, d)
    c.prove(o[0] == 'ok', 'trace ids can be made', show(o))
    (a, ta), (b, tb) = o[1]
    c.prove(len(ta) >= 1 and len(tb) >= 1, 'a trace id holds the time')
    c.assume(z3.And(ta[0] >= 1, tb[0] >= ta[-1]))       # after 1970-01-01 00:00:01; the clock does not go back
    ms = lambda t: z3.ToInt(1000 * t)
    if c.decide(ms(ta[0]) == ms(tb[-1]), 'same millisecond'):
        c.cover('same ms')
        c.assume(zi(d) + 2 < 8001)
    else:
        c.cover('different ms')
        c.assume(z3.Implies(ms(ta[-1]) == ms(tb[0]), zi(d) + 2 < 8001))
    ra, rb = SymStr.lift(rt.str_(a)), SymStr.lift(rt.str_(b))
    decimal(c, None, None)
    for r in (ra, rb):
        nums = [p.base.arg(0) if isinstance(p, Slc) and z3.is_app(p.base) and p.base.decl().name() == 'int2str' and p.whole() else None for p in r.parts]
        for x, y in zip(nums, nums[1:]):
            if x is not None and y is not None and c.entails(z3.And(x >= 1, y >= 1000, y <= 9999)):
                t = z3.simplify(10000 * x + y)
                m = SymStr.lift(rt.str_(mkint(t))).term()
                c.assume(z3.Concat(sym.U_ISTR(x), sym.U_ISTR(y)) == m)
    c.prove(sym.negate(ra == rb), 'trace ids of one process differ', '%s / %s' % (rep(ra), rep(rb)))
    c.prove(sym.negate(a == b), 'trace ids of one process are not equal')


def timed(c, T):
    seen = []
    h, c.extra['clock_hook'] = c.extra.get('clock_hook'), seen.append
    try:
        return rt.call(T), tuple(seen)
    finally:
        c.extra['clock_hook'] = h


@goal('C21', 'a trace id built from a text prints as that text', covers=('text',))
def from_text(c):
    w = World(c)
    t = text(c, 'text')
    o = attempt(lambda: rt.call(w('mytracer:TraceId'), t))
    c.prove(o[0] == 'ok', 'a trace id can be built from any text', show(o))
    for f, what in ((rt.str_, 'str'), ):
        r = attempt(lambda: f(o[1]))
        c.prove(r[0] == 'ok' and core.zb(veq(r[1], t)), 'a trace id built from a text prints as that text', show(r))
    p = attempt(lambda: rt.call(w('mytracer:TraceId'), t))
    c.prove(core.zb(p[1] == o[1]), 'trace ids of one text are equal')
    c.cover('text')
