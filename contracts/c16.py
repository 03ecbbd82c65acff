"""C16: the recently-used container, one operation on an arbitrary state.

State: a map of any size up to the maximum, in order of last use (representation: the ordered map held by the container).
Interleavings: every access to that map and to it only happens inside the container's lock (checked on every access), each
operation is one critical section (checked), so an operation's effect is that of the sequential run from the state in which it
took the lock; the callback runs outside the lock (checked)."""
from .kit import *
from pyvc.containers import Obj
from pyvc.models import base


class St(object):
    current = None      # the map which is shared now, where it may be replaced


def watched(st):
    class Watched(base.OrderedDict):
        def hook(self):
            if st.obj is not None and core.CUR is not None and (st.current is None or st.current() is self):
                core.CUR.prove(st.lock_held(), 'the shared map is only used inside the lock')
        def _find(self, k):
            self.hook()
            return PDict._find(self, k)
        def _set(self, attr, v):
            self.hook()
            return PDict._set(self, attr, v)
        def _enum(self, f):
            self.hook()
            return PDict._enum(self, f)
        def zlen(self):
            self.hook()
            return PDict.zlen(self)
    return Watched


def held_map(rc):
    maps = [(k, v) for k, v in vars(rc).items() if isinstance(v, PDict)]
    if len(maps) != 1:
        raise Unsupported('the container does not hold exactly one map')
    return maps[0]


def swaps(cls):
    """whether an operation puts another map in the place of the container's"""
    rc = rt.call(cls, maxsize=2)
    m = held_map(rc)[1]
    for f in (lambda: rt.callm(rc, '__setitem__', 'a', 1), lambda: rt.callm(rc, '__setitem__', 'b', 1), lambda: rt.callm(rc, '__setitem__', 'c', 1), lambda: rt.getitem(rc, 'b'),
              lambda: rt.callm(rc, '__delitem__', 'b'), lambda: rt.callm(rc, 'clear')):
        attempt(f)
        if held_map(rc)[1] is not m:
            return True
    return False


def setup(c, callback=True):
    w = World(c)
    st = St()
    st.swaps = swaps(w('mysockpool.recently_used_container:RecentlyUsedContainer'))
    st.obj = None
    st.locks = []
    st.sections = 0
    st.disposed = []

    def lock_hook(l, what):
        if l not in st.locks:
            st.locks.append(l)
        if what == 'acquire' and l.held == 1:
            st.sections += 1
    c.extra['lock_hook'] = lock_hook
    st.lock_held = lambda: any(l.held > 0 for l in st.locks)

    def dispose(v):
        c.prove(not st.lock_held(), 'the callback runs outside the lock')
        st.disposed.append(v)
        h = c.extra.get('on_dispose')
        if h:
            h(v)
    cls = w('mysockpool.recently_used_container:RecentlyUsedContainer')
    size = integer(c, 'maxsize', 0)
    kw = dict(maxsize=size)
    if callback:
        kw['dispose_func'] = dispose
    o = attempt(lambda: rt.call(cls, **kw))
    c.prove(o[0] == 'ok', 'a container can be made', show(o))
    st.rc = o[1]
    st.size = zi(size)
    attr, st.map = held_map(st.rc)
    st.current = lambda: st.rc.__dict__[attr]
    if st.swaps:
        # then the map may be replaced by another thread whenever the lock is not held
        def read(self, name):
            if name == attr and self is st.rc and st.obj is not None and core.CUR is not None:
                core.CUR.prove(st.lock_held(), 'the shared map is only looked up inside the lock')
            return object.__getattribute__(self, name)
        cls.__getattribute__ = read
    c.prove(z3.simplify(PDict.zlen(st.map)) == 0, 'a new container is empty')
    # an arbitrary reachable state
    n = z3.Const(c.name('n'), I)
    c.assume(z3.And(n >= 0, n <= st.size))
    K = z3.Function('key', I, S); IX = z3.Function('keyidx', S, I); V = z3.Function('val', I, Opaque.VAL)
    for f in (K, IX, V):
        core.GLOBAL_UFS.add(f.name())
    c.foralls.append(lambda i: c.assume(IX(K(i)) == i))
    object.__setattr__(st.map, 'segs', [('b', Bulk(n, lambda i: SymStr.atom(K(i)), lambda i: Obj(V(i))))])
    st.map.__class__ = watched(st)
    st.n, st.K, st.V = n, K, V
    st.obj = st.rc
    st.sections = 0
    c.track('entries', mkint(n))
    return st


def peek(st, f):
    """look at the map as a specification"""
    o, st.obj = st.obj, None
    try:
        return f(st.current())
    finally:
        st.obj = o


def place(st, key):
    """where the entry with this key is in the order of last use: (segment, index) or None; and its value"""
    def f(m):
        p = PDict._find(m, key)
        if p is None:
            return None, None
        return (p[1], p[2] if p[0] == 'b' else z3.IntVal(0)), m._getat(p)
    return peek(st, f)


def before(a, b):
    return a[0] < b[0] if a[0] != b[0] else a[1] < b[1]


def same(a, b):
    """the same object"""
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.t == b.t
    return a is b


def generic(c, st, name='entry'):
    i = c.fresh(name, I)
    c.assume(z3.And(i >= 0, i < st.n))
    c.instantiate(i)
    c.witness.append(i)
    return i


def unchanged(c, st, but, what):
    """every old entry except those of `but` (conditions on the index) is still there with its value, in the old order;
    but[last] marks indices moved to the end"""
    i = generic(c, st)
    c.assume(z3.Not(but(i)))
    p, v = place(st, SymStr.atom(st.K(i)))
    c.prove(p is not None, what + ': the other entries are kept')
    c.prove(same(v, Obj(st.V(i))), what + ': the other entries keep their values')
    j = generic(c, st)
    c.assume(z3.Not(but(j)))
    c.assume(i < j)
    q, _ = place(st, SymStr.atom(st.K(j)))
    c.prove(q is not None, what + ': the other entries are kept')
    c.prove(before(p, q), what + ': the order of last use of the others is kept')
    return i, p


def one_section(c, st):
    c.prove(st.sections <= 1, 'an operation is one critical section', '%d' % st.sections)
    c.prove(not st.lock_held(), 'the lock is released')
    if not st.swaps and st.current() is not st.map:
        raise Unsupported('the map is replaced')


def size_ok(c, st, n, what):
    z = peek(st, lambda m: PDict.zlen(m))
    c.prove(z == n, what + ': number of entries', '%s' % z)
    c.prove(z <= st.size, what + ': never more than the maximum')


def disposed(c, st, vals, what):
    c.prove(len(st.disposed) == len(vals) and (not vals or same(st.disposed[0], vals[0])), what + ': exactly what was dropped is disposed of, once',
            '%r / %r' % (st.disposed, vals))


@goal('C16', 'lookup: the value last stored, and the entry becomes the newest', covers=('hit', 'miss'))
def lookup(c):
    st = setup(c, c.choose(2, 'callback') == 0)
    key = text(c, 'key_arg')
    how = c.choose(2, 'lookup kind')
    o = attempt(lambda: rt.getitem(st.rc, key)) if how == 0 else attempt(lambda: rt.callm(st.rc, 'get', key))
    one_section(c, st)
    disposed(c, st, [], 'lookup')
    j = z3.Const('keyidx_arg', I)
    IX = z3.Function('keyidx', S, I)
    c.instantiate(IX(key.term()))
    was = IX(key.term())
    if c.decide(z3.And(was >= 0, was < st.n, st.K(was) == key.term())):
        c.cover('hit')
        c.prove(o[0] == 'ok', 'a key that is present is found', show(o))
        c.prove(same(o[1], Obj(st.V(was))), 'a lookup returns the value last stored under that key')
        p, v = place(st, key)
        c.prove(p is not None and core.zb(same(v, Obj(st.V(was)))), 'the entry is kept')
        size_ok(c, st, st.n, 'lookup')
        i, q = unchanged(c, st, lambda i: i == was, 'lookup')
        c.prove(before(q, p), 'the entry looked up is the newest')
    else:
        c.cover('miss')
        c.prove(o[0] == 'err' and isinstance(o[1], KeyError) if how == 0 else o[0] == 'ok' and o[1] is None, 'a missing key is reported', show(o))
        size_ok(c, st, st.n, 'missing lookup')
        unchanged(c, st, lambda i: z3.BoolVal(False), 'missing lookup')


@goal('C16', 'store: replaces, keeps the maximum by evicting the oldest, disposes what was dropped', covers=('replaced', 'added', 'evicted', 'same'))
def store(c):
    cb = c.choose(2, 'callback') == 0
    st = setup(c, cb)
    key = text(c, 'key_arg')
    val = Obj(z3.Const('val_arg', Opaque.VAL))
    o = attempt(lambda: rt.callm(st.rc, '__setitem__', key, val))
    c.prove(o[0] == 'ok', 'storing never fails', show(o))
    one_section(c, st)
    IX = z3.Function('keyidx', S, I)
    was = IX(key.term())
    c.instantiate(was)
    if c.decide(z3.And(was >= 0, was < st.n, st.K(was) == key.term())):
        c.witness.append(was)
        p, v = place(st, key)
        c.prove(p is not None, 'a stored key is present')
        c.prove(same(v, val), 'a lookup after a store finds the stored value')
        size_ok(c, st, st.n, 'replacing store')
        i, q = unchanged(c, st, lambda i: i == was, 'replacing store')
        c.prove(before(q, p), 'the entry stored is the newest')
        if c.decide(st.V(was) == val.t):
            c.cover('same')
            disposed(c, st, [], 'storing the same value again')
        else:
            c.cover('replaced')
            disposed(c, st, [Obj(st.V(was))] if cb else [], 'replacing store')
    elif c.decide(st.n < st.size):
        c.cover('added')
        p, v = place(st, key)
        c.prove(p is not None, 'a stored key is present')
        c.prove(same(v, val), 'a lookup after a store finds the stored value')
        size_ok(c, st, st.n + 1, 'adding store')
        disposed(c, st, [], 'adding store')
        i, q = unchanged(c, st, lambda i: z3.BoolVal(False), 'adding store')
        c.prove(before(q, p), 'the entry stored is the newest')
    else:
        c.cover('evicted')
        size_ok(c, st, st.n, 'evicting store')
        if c.decide(st.n > 0):
            c.instantiate(z3.IntVal(0))
            disposed(c, st, [Obj(st.V(0))] if cb else [], 'evicting store')
            c.witness.append(z3.IntVal(0))
            p, v = place(st, key)
            c.prove(p is not None, 'a stored key is present')
            c.prove(same(v, val), 'a lookup after a store finds the stored value')
            old, _ = place(st, SymStr.atom(st.K(z3.IntVal(0))))
            c.prove(old is None, 'the evicted entry is the oldest')
            i, q = unchanged(c, st, lambda i: i == 0, 'evicting store')
            c.prove(before(q, p), 'the entry stored is the newest')
        else:
            disposed(c, st, [val] if cb else [], 'evicting store')


@goal('C16', 'delete: removes exactly that entry and disposes of its value once', covers=('hit', 'miss'))
def delete(c):
    cb = c.choose(2, 'callback') == 0
    st = setup(c, cb)
    key = text(c, 'key_arg')
    o = attempt(lambda: rt.callm(st.rc, '__delitem__', key))
    one_section(c, st)
    IX = z3.Function('keyidx', S, I)
    was = IX(key.term())
    c.instantiate(was)
    if c.decide(z3.And(was >= 0, was < st.n, st.K(was) == key.term())):
        c.cover('hit')
        c.prove(o[0] == 'ok', 'a present key is deleted', show(o))
        p, v = place(st, key)
        c.prove(p is None, 'the key is gone')
        size_ok(c, st, st.n - 1, 'delete')
        unchanged(c, st, lambda i: i == was, 'delete')
        disposed(c, st, [Obj(st.V(was))] if cb else [], 'delete')
    else:
        c.cover('miss')
        c.prove(o[0] == 'err' and isinstance(o[1], KeyError), 'deleting a missing key is an error', show(o))
        size_ok(c, st, st.n, 'missing delete')
        unchanged(c, st, lambda i: z3.BoolVal(False), 'missing delete')
        disposed(c, st, [], 'missing delete')


@goal('C16', 'clear: empties the container and disposes of every value once', covers=('cleared',))
def clear(c):
    cb = c.choose(2, 'callback') == 0
    st = setup(c, cb)
    calls = []

    def on_dispose(v):
        ks = [l for l in c.loops if l.open]
        if len(ks) == 1:
            k = ks[0].k
            calls.append(ks[0])
            c.prove(same(v, Obj(st.V(k))), 'clear: the k-th disposed value is the k-th value held')
            c.prove(k < st.n, 'clear: only values held are disposed of')
    c.extra['on_dispose'] = on_dispose

    def backedge(loop, seg):
        c.prove(len(st.disposed) == 1 if cb else not st.disposed, 'clear: each value is disposed of exactly once')
    c.extra['loop_backedge'] = backedge
    ends = []
    o = attempt(lambda: rt.callm(st.rc, 'clear'))
    c.prove(o[0] == 'ok', 'clear succeeds', show(o))
    one_section(c, st)
    z = peek(st, lambda m: PDict.zlen(m))
    c.prove(z == 0, 'clear: nothing is held afterwards')
    c.cover('cleared')
    done = [e for e in c.trace if e[0] == 'loop-end']
    if cb:
        if done:
            c.prove(len(done) == 1 and done[0][2] == st.n, 'clear: every value is disposed of')
            c.prove(not st.disposed, 'clear: nothing is disposed of twice')
        else:
            c.prove(st.n == 0, 'clear: every value is disposed of')
    else:
        c.prove(not st.disposed, 'no callback, nothing disposed of')


@goal('C16', 'len and keys: exactly what is held', covers=('seen',))
def observe(c):
    st = setup(c)
    o = attempt(lambda: rt.len_(st.rc))
    c.prove(o[0] == 'ok', 'the size can be read', show(o))
    c.prove(zi(o[1]) == st.n, 'len is the number of entries')
    one_section(c, st)
    st.sections = 0
    o = attempt(lambda: rt.callm(st.rc, 'keys'))
    c.prove(o[0] == 'ok', 'the keys can be read', show(o))
    one_section(c, st)
    ks = rt.to_plist(o[1])
    c.prove(ks.zlen() == st.n, 'keys: one per entry')
    i = generic(c, st)
    c.prove(core.zb(ks.at(i) == SymStr.atom(st.K(i))), 'keys: exactly the keys held')
    disposed(c, st, [], 'observing')
    size_ok(c, st, st.n, 'observing')
    unchanged(c, st, lambda i: z3.BoolVal(False), 'observing')
    c.cover('seen')
