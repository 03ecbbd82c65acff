"""C17: pool manager."""
import threading
from collections import OrderedDict
from lib import *
from mysockpool import PoolManager
from mysockpool.connection import SocketConnection
Key = SocketConnection.PoolKeyCls


class Conn:
    pass


class Pool:
    made = []
    delay = 0
    fail = None

    def __init__(self, key, **kw):
        if Pool.fail:
            raise Pool.fail
        if Pool.delay:
            time.sleep(Pool.delay)
        self.key, self.kw, self.closed, self.out, self.put, self.getfail = key, kw, 0, [], [], None
        Pool.made.append(self)

    def get_conn(self, *a, **kw):
        if self.getfail:
            raise self.getfail
        c = Conn()
        self.out.append(c)
        return c

    def put_conn(self, c):
        self.put.append(c)

    def close(self):
        self.closed += 1


class Man(PoolManager):
    PoolCls = Pool


class Boom(Exception):
    pass


def history(R, i):
    r = R.rng
    Pool.made = []
    size = r.choice([1, 2, 3, 10])
    kw = r.choice([{}, {"max_connections": 5}, {"block": True, "initial_connections": 2}, {"block": False, "initial_connections": 0}, {"min_free_connections": 0}])
    man = Man(size, **kw)
    m = OrderedDict()
    hist = []
    inp = (size, kw, hist)
    R.case(size, kw, i)
    keys = [Key("h%d" % (j % 3), 80 + j) for j in range(5)] + [Key("h0", 81), Key("h1", 80)]
    for _ in range(r.choice([5, 15, 40])):
        k = r.choice(keys)
        op = r.choice(["get"] * 6 + ["scope"] * 3 + (["clear"] if r.random() < .3 else []))
        hist.append((op, tuple(k)))
        n = len(Pool.made)
        gone = []
        def touch():
            if k in m:
                m.move_to_end(k)
                return m[k]
            if not R.check(len(Pool.made) == n + 1, "create", "%d pools created for an uncached key" % (len(Pool.made) - n), inp):
                return None
            p = Pool.made[-1]
            R.check(p.key == k and type(p.key) is type(k), "create", "pool created for %r instead of %r" % (p.key, k), inp)
            R.check(p.kw == kw, "create", "pool created with %r instead of %r" % (p.kw, kw), inp)
            m[k] = p
            if len(m) > size:
                gone.append(m.popitem(last=False)[1])
            return p
        if op == "get":
            p = man.connection_pool_from_pool_key(k)
            want = touch()
            if not R.check(p is want, "identity", "another pool than the cached one", inp):
                return
        elif op == "clear":
            man.clear()
            gone += list(m.values())
            m.clear()
        else:
            exc = r.choice([None, None, Boom("x"), KeyboardInterrupt(), NameError("n"), AttributeError("a"), StopIteration("s"), GeneratorExit(), SystemExit(3)])
            getfail = r.choice([None, None, None, Boom("g"), NameError("g"), AttributeError("g")])
            evict = r.random() < .3
            hist[-1] += (repr(exc), repr(getfail), evict)
            if getfail is not None:
                p0 = man.connection_pool_from_pool_key(k)
                want = touch()
                if p0 is not want:
                    R.fail("identity", "another pool than the cached one", inp)
                    return
                p0.getfail = getfail
            out, conn = None, None
            try:
                with man.connection_scope(k) as conn:
                    n_made = len(Pool.made)
                    want = m[k] if k in m else Pool.made[-1]
                    touch()
                    pre = list(want.put)
                    if evict:
                        man.clear()
                        gone += list(m.values())
                        m.clear()
                        if r.random() < .5:
                            man.connection_pool_from_pool_key(k)
                            m[k] = Pool.made[-1]
                            n += 1
                            n_made += 1
                    if exc is not None:
                        raise exc
            except BaseException as e:
                out = e
            if getfail is not None:
                p0.getfail = None
                R.check(out is getfail, "scope-exception", "obtaining the connection failed with %r, the scope ended with %r" % (getfail, out), inp)
                R.check(not any(c not in p.out for p in Pool.made for c in p.put), "put-nothing", "something was put back though no connection was obtained", inp)
                touch()
            else:
                same = out is exc or (isinstance(exc, StopIteration) and isinstance(out, (RuntimeError, StopIteration)))
                R.check(same, "scope-exception", "the block ended with %r, the scope with %r" % (exc, out), inp)
            for p in Pool.made:
                back = [c for c in p.put]
                if not R.check(len(back) == len(set(map(id, back))) and all(c in p.out for c in back), "put", "a connection was put back twice or into another pool", inp):
                    return
                if not R.check(all(a is b for a, b in zip(sorted(back, key=id), sorted(p.out, key=id))), "put", "a connection was put back into another pool", inp):
                    return
                if not R.check(len(back) == len(p.out), "put", "%d connections obtained, %d put back" % (len(p.out), len(back)), inp):
                    return
        for p in gone:
            if not R.check(p.closed, "close", "a pool left the cache without being closed", inp):
                return
        for p in m.values():
            if not R.check(not p.closed, "close-live", "a cached pool was closed", inp):
                return
        if not R.check(len(Pool.made) - n <= 1, "create", "more than one pool created", inp):
            return
    with man:
        pass
    R.check(all(p.closed for p in Pool.made), "close", "leaving the manager's scope left pools open", inp)


def threads(R, i):
    Pool.made = []
    Pool.delay = 0.003
    man = Man(10)
    keys = [Key("h", j) for j in range(3)]
    got, errs = [], []
    b = threading.Barrier(8)
    R.case("threads", i)

    def work(j):
        try:
            b.wait()
            for k in (keys if j % 2 else keys[::-1]):
                got.append((k, man.connection_pool_from_pool_key(k)))
        except Exception as e:
            errs.append(repr(e))
    ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(8)]
    [t.start() for t in ts]
    [t.join(20) for t in ts]
    Pool.delay = 0
    R.check(not errs and not any(t.is_alive() for t in ts), "threads", "threads failed: %r" % errs[:1], "8 threads, 3 keys")
    for k in keys:
        ps = {id(p) for kk, p in got if kk == k}
        R.check(len(ps) == 1, "identity", "8 threads got %d different pools for one key" % len(ps), "8 threads, 3 keys")
    R.check(all(p.key == k for k, p in got), "create", "a thread got a pool of another key", "8 threads, 3 keys")
    R.check(not any(p.closed for k, p in got), "close-live", "a cached pool was closed", "8 threads, 3 keys")


def run(R):
    for i in range(5000 if R.thorough else 900):
        with R.guard(20, "hang", "manager history", i):
            try:
                history(R, i)
            except Exception as e:
                R.fail("error", repr(e), i)
    for i in range(30 if R.thorough else 8):
        threads(R, i)
    # pool creation fails: nothing is put back, the error is passed on
    Pool.made = []
    man = Man(2)
    for exc in (Boom("p"), NameError("p"), AttributeError("p")):
        Pool.fail = exc
        R.case("creation fails", repr(exc))
        try:
            with man.connection_scope(Key("x", 1)):
                R.fail("scope", "scope entered without a connection", repr(exc))
        except Exception as e:
            R.check(e is exc, "scope-exception", "pool creation failed with %r, the scope with %r" % (exc, e), repr(exc))
        Pool.fail = None
    # real pools
    man = PoolManager(1, initial_connections=0, max_connections=2, min_free_connections=0)
    k = Key("127.0.0.1", 1)
    R.case("real pools")
    p = man.connection_pool_from_pool_key(k)
    R.check(p.max_connections == 2 and p.pool_key == k, "create", "configured parameters not used", "real pools")
    q = man.connection_pool_from_pool_key(Key("127.0.0.1", 2))
    R.check(p.pool is None and q.pool is not None and q is not p, "close", "evicted pool not closed", "real pools")
