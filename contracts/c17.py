"""C17: the pool manager.

Lookup: proved from an arbitrary cache (any size, any keys and pools).  Interleavings: every use of the cache is inside its lock
(C16); whenever this thread enters the lock again, the cache is arbitrary again (what other threads did in between); within each
critical section the entry of a key that stays cached is never replaced by another pool.  So as long as a key stays cached every
lookup, in any interleaving, is answered with the one pool.  Scope: one run for every way the block can end and every failure."""
from .kit import *
from .c16 import watched, St
from pyvc.containers import Opaque, Mut
from pyvc.models import base

U_HOST = core.z3.Function('keyhost', Opaque.VAL, S)
U_PORT = core.z3.Function('keyport', Opaque.VAL, I)
core.GLOBAL_UFS.update(('keyhost', 'keyport'))


class PKey(Opaque):
    """a pool key: two keys are equal iff they are the same constant"""
    __slots__ = ()
    @property
    def host(self): return SymStr.atom(U_HOST(self.t))
    @property
    def port(self): return mkint(U_PORT(self.t))
    def __hash__(self): raise Unsupported('hash of a key')


class Cached(Opaque):
    """a pool held by the cache in the arbitrary state"""
    __slots__ = ()
    def __bool__(self): return True
    def close(self): core.CUR.extra['on_close'](self)
    def get_conn(self, *a, **kw):
        core.CUR.extra['got'].append(self)
        return 'connection'
    def put_conn(self, x): core.CUR.extra['put'].append((self, x))
    def __hash__(self): raise Unsupported('hash of a pool')


class PoolModel(rt.Model, Mut):
    def __init__(self, key, **kw):
        c = core.CUR
        self.key, self.kw = key, kw
        for k, v in dict(closed=0, out=(), back=()).items():
            object.__setattr__(self, k, v)
        if c.choose(2, 'pool creation fails') == 1:
            raise c.extra['creation error']
        c.extra['made'].append(self)

    def get_conn(self, *a, **kw):
        c = core.CUR
        if c.choose(2, 'no connection') == 1:
            raise c.extra['get error']
        x = object()
        self._set('out', self.out + (x,))
        return x

    def put_conn(self, x):
        self._set('back', self.back + (x,))

    def close(self):
        self._set('closed', self.closed + 1)
        h = core.CUR.extra.get('on_close')
        if h:
            h(self)


class Boom(Exception):
    pass


def arbitrary(c, st, m):
    """an arbitrary content of the cache"""
    k = st.gen = getattr(st, 'gen', 0) + 1
    n = z3.Const(c.name('n'), I)
    c.assume(z3.And(n >= 0, n <= st.size))
    K = z3.Function('pkey%d' % k, I, Opaque.VAL); IX = z3.Function('pkeyidx%d' % k, Opaque.VAL, I); V = z3.Function('pool%d' % k, I, Opaque.VAL)
    for f in (K, IX, V):
        core.GLOBAL_UFS.add(f.name())
    c.foralls.append(lambda i: c.assume(IX(K(i)) == i))
    object.__setattr__(m, 'segs', [('b', Bulk(n, lambda i: PKey(K(i)), lambda i: Cached(V(i))))])
    st.n, st.K, st.V, st.IX = n, K, V, IX
    st.closed = []


def setup(c):
    w = World(c)
    st = St()
    st.obj = None
    st.locks = []
    st.sections = 0
    st.size = zi(integer(c, 'max_pools', 0))
    st.checks = []
    c.extra['made'] = []
    c.extra['got'] = []
    c.extra['put'] = []
    c.extra['creation error'] = Boom('pool')
    c.extra['get error'] = Boom('get')
    kw = {}
    if c.pick(2, 'pool parameters') == 1:
        kw = dict(max_connections=integer(c, 'max_connections', 0), block=True)
    PM = w('mysockpool.pool_manager:PoolManager')
    P = type('P', (PM,), dict(PoolCls=PoolModel))
    P.__module__ = PM.__module__

    def held():
        return any(l.held > 0 for l in st.locks)

    def section_ends(l):
        """what one critical section does to the cache"""
        for f in st.checks:
            f()
    def lock_hook(l, what):
        if l not in st.locks:
            st.locks.append(l)
        if st.obj is None:
            return
        if what == 'acquire' and l.held == 1:
            st.sections += 1
            if st.sections > 1:
                arbitrary(c, st, st.map)
        elif what == 'release' and l.held == 1:
            o, st.obj = st.obj, None
            try:
                section_ends(l)
            finally:
                st.obj = o
    c.extra['lock_hook'] = lock_hook
    st.lock_held = held
    o = attempt(lambda: rt.call(P, mkint(st.size), **kw))
    c.prove(o[0] == 'ok', 'a manager can be made', show(o))
    st.man = o[1]
    st.kw = kw
    RUC = w('mysockpool.recently_used_container:RecentlyUsedContainer')
    rcs = [v for v in vars(st.man).values() if isinstance(v, RUC)]
    if len(rcs) != 1:
        raise Unsupported('the manager does not hold exactly one cache')
    maps = [v for v in vars(rcs[0]).values() if isinstance(v, PDict) and not v.segs and v is not kw]
    if len(maps) != 1:
        raise Unsupported('the cache does not hold exactly one map')
    st.map = maps[0]
    arbitrary(c, st, st.map)
    st.map.__class__ = watched(st)
    c.extra['on_close'] = lambda p: st.closed.append(p)
    st.obj = rcs[0]
    return w, st


def value_of(st, key):
    o, st.obj = st.obj, None
    try:
        p = PDict._find(st.map, key)
        return None if p is None else st.map._getat(p)
    finally:
        st.obj = o


def same(a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.t == b.t
    return a is b


@goal('C17', 'lookup: the cached pool, or a new one made for the key and cached', covers=('hit', 'made', 'evicting', 'failed'))
def lookup(c):
    w, st = setup(c)
    key = PKey(z3.Const('key_arg', Opaque.VAL))
    n0 = {}

    def at_end():
        # this section: an entry that stays keeps its pool
        i = c.fresh('other', I)
        c.assume(z3.And(i >= 0, i < st.n))
        c.instantiate(i)
        c.witness.append(i)
        p = PDict._find(st.map, PKey(st.K(i)))
        if p is not None:
            c.prove(same(st.map._getat(p), Cached(st.V(i))), 'the pool of a cached key is never replaced')
            st.kept = True
        else:
            c.instantiate(i)
            st.gone = Cached(st.V(i))
    st.checks.append(at_end)
    st.gone = None
    before = (st.n, st.K, st.V, st.IX)
    how = c.pick(2, 'asked directly or through a scope')
    if how == 0:
        o = attempt(lambda: rt.callm(st.man, 'connection_pool_from_pool_key', key))
    else:
        cm = rt.callm(st.man, 'connection_scope', key)
        c.extra['scope'] = cm
        got = c.extra['got']
        o = attempt(lambda: cm.__enter__())
        if o[0] == 'ok' and got:
            o = ('ok', got[0])
        elif o[0] == 'ok':
            o = ('ok', c.extra['made'][-1])
        elif c.extra['made'] and o[1] is c.extra['get error']:
            o = ('ok', c.extra['made'][-1])
    c.prove(not st.lock_held(), 'the lock is released')
    was = st.IX(key.t)
    c.instantiate(was)
    made = c.extra['made']
    if c.decide(z3.And(was >= 0, was < st.n, st.K(was) == key.t)):
        # (in the state in which the answer was found)
        c.witness.append(was)
        c.cover('hit')
        c.prove(o[0] == 'ok', 'a cached key is answered', show(o))
        c.prove(same(o[1], Cached(st.V(was))), 'while the pool of a key is cached, a lookup returns that same pool')
        c.prove(value_of(st, key) is not None, 'the pool stays cached')
        c.prove(all(p.closed == 1 for p in made), 'a pool made in vain is closed')
        c.prove(not any(isinstance(p, Opaque) for p in st.closed), 'a lookup of a cached key closes no other pool')
        if how == 1:
            c.prove(not c.extra['put'], 'nothing is put back while the block runs')
            end = attempt(lambda: cm.__exit__(None, None, None))
            c.prove(end[0] == 'ok' and not end[1], 'a normal end stays a normal end', show(end))
            put = c.extra['put']
            c.prove(len(put) == 1 and put[0][1] == 'connection' and core.zb(same(put[0][0], Cached(st.V(was)))), 'the connection is put back into the pool it came from, exactly once')
        return
    if o[0] == 'err':
        c.cover('failed')
        c.prove(o[1] is c.extra['creation error'], 'the only failure is that of making the pool', show(o))
        c.prove(not st.closed, 'a failed lookup closes nothing')
        c.prove(value_of(st, key) is None, 'nothing is cached for a pool that could not be made')
        return
    c.cover('made')
    p = o[1]
    c.prove(isinstance(p, PoolModel) and len(made) == 1 and made[0] is p, 'one new pool is made and returned', show(o))
    c.prove(same(p.key, key), 'the new pool is made for the key asked for')
    kw = {k: p.kw[k] for k in p.kw}
    c.prove(set(kw) == set(st.kw) and all(kw[k] is st.kw[k] or core.zb(kw[k] == st.kw[k]) for k in kw), 'the new pool is made with the configured parameters', '%r' % (kw,))
    now = value_of(st, key)
    if c.decide(st.size >= 1):
        c.prove(now is p and p.closed == 0, 'the new pool is cached and open')
    else:
        c.prove(now is None and p.closed == 1, 'a pool that is not kept in the cache is closed')
    if st.gone is not None:
        c.cover('evicting')
        others = [q for q in st.closed if isinstance(q, Opaque)]
        c.prove(len(others) == 1 and core.zb(same(others[0], st.gone)), 'a pool that leaves the cache is closed, once, and no other')


@goal('C17', 'clear and leaving the manager: every cached pool is closed', covers=('cleared',))
def clear(c):
    w, st = setup(c)

    def on_close(p):
        st.closed.append(p)
        ks = [l for l in c.loops if l.open]
        if len(ks) == 1:
            c.prove(same(p, Cached(st.V(ks[0].k))), 'clear: the k-th pool closed is the k-th pool held')
            c.prove(ks[0].k < st.n, 'clear: only pools held are closed')
    c.extra['on_close'] = on_close
    c.extra['loop_backedge'] = lambda loop, seg: c.prove(len(st.closed) == 1, 'clear: each pool is closed exactly once')
    boom = Boom('block')
    if c.pick(2, 'clear or context manager') == 0:
        o = attempt(lambda: rt.callm(st.man, 'clear'))
    else:
        m = attempt(lambda: rt.callm(st.man, '__enter__'))
        c.prove(m[0] == 'ok' and m[1] is st.man, 'the context manager is the manager', show(m))
        args = [(None, None, None), (Boom, boom, None)][c.pick(2, 'block')]
        o = attempt(lambda: rt.callm(st.man, '__exit__', *args))
        c.prove(o[0] == 'ok' and not o[1], 'the context manager passes exceptions on', show(o))
    c.prove(o[0] == 'ok', 'clear succeeds', show(o))
    o_, st.obj = st.obj, None
    c.prove(PDict.zlen(st.map) == 0, 'clear: nothing is cached afterwards')
    done = [e for e in c.trace if e[0] == 'loop-end']
    if done:
        c.prove(len(done) == 1 and core.zb(done[0][2] == st.n), 'clear: every pool is closed')
    else:
        c.prove(st.n == 0, 'clear: every pool is closed')
    c.cover('cleared')


@goal('C17', 'scope: the connection goes back to its pool exactly once, exceptions pass', covers=('normal', 'raised', 'no connection', 'no pool', 'nested'))
def scope(c):
    w, st = setup(c)
    key = PKey(z3.Const('key_arg', Opaque.VAL))
    IX = st.IX(key.t)
    c.instantiate(IX)
    c.assume(z3.Not(z3.And(IX >= 0, IX < st.n, st.K(IX) == key.t)))
    made = c.extra['made']
    err = [Boom('x'), AttributeError('x'), NameError('x'), UnboundLocalError('x')][c.pick(4, 'error')]
    c.extra['creation error'] = err
    c.extra['get error'] = err
    cm = rt.callm(st.man, 'connection_scope', key)
    o = attempt(lambda: cm.__enter__())
    if o[0] == 'err':
        c.cover('no connection' if made else 'no pool')
        c.prove(o[1] is err, 'a failure to get a connection is passed on', show(o))
        c.prove(all(p.back == () for p in made), 'nothing is put back when no connection was obtained')
        return
    p = made[0]
    c.prove(len(made) == 1 and p.out == (o[1],), 'the scope hands out the connection of the pool of its key')
    c.prove(p.back == (), 'nothing is put back while the block runs')
    nested = c.pick(2, 'nested') == 1
    if nested:
        # a block inside, for the same key
        st.gen_keep = True
        saved = c.extra['creation error']
        cm2 = rt.callm(st.man, 'connection_scope', key)
        had = len(p.out)
        o2 = attempt(lambda: cm2.__enter__())
        if c.extra['got']:
            # another thread has cached a pool for the key meanwhile
            if o2[0] == 'ok':
                attempt(lambda: cm2.__exit__(None, None, None))
                c.prove(len(c.extra['put']) == 1 and c.extra['put'][0][0] is c.extra['got'][0] and c.extra['put'][0][1] is o2[1], 'leaving a nested scope puts back its own connection only')
        elif o2[0] == 'ok':
            q = made[-1]
            c.cover('nested')
            c.prove(q.out[-1:] == (o2[1],) and o2[1] is not o[1], 'a nested scope hands out its own connection')
            attempt(lambda: cm2.__exit__(None, None, None))
            c.prove(q.back == (o2[1],), 'leaving a nested scope puts back its own connection only')
            q._set('back', q.back[:-1])
            q._set('out', q.out[:-1])
    end = [None, err, StopIteration('x'), KeyboardInterrupt(), GeneratorExit(), RuntimeError('x'), BaseException('x')][c.pick(7, 'how the block ends')]
    if end is None:
        c.cover('normal')
        o3 = attempt(lambda: cm.__exit__(None, None, None))
        c.prove(o3[0] == 'ok' and not o3[1], 'a normal end stays a normal end', show(o3))
    else:
        c.cover('raised')
        try:
            r = cm.__exit__(type(end), end, None)
            c.prove(not r, "the block's exception is passed on", 'swallowed %r' % (end,))
        except core.Internal:
            raise
        except BaseException as e:
            c.prove(e is end, "the block's exception is passed on", '%r became %r' % (end, e))
    c.prove(p.back == (o[1],), 'the connection is put back into the pool it came from, exactly once', '%d times' % len(p.back))
    c.prove(p.out == (o[1],), 'one connection per scope')
