"""C15: connection pool."""
import threading
from lib import *
from mysockpool.connection_pool import ConnectionPool
from mysockpool.connection import SocketConnection
from mysockpool.exceptions import EmptyPoolError, ClosedPoolError

KEY = SocketConnection.PoolKeyCls(host="127.0.0.1", port=1)
LOST = "topup-failure-loses-connection"


class Conn:
    log = []
    fail_next = False
    delay = 0

    @classmethod
    def validate_pool_key(cls, k):
        pass

    def __init__(self, key, *a, **kw):
        if Conn.fail_next:
            raise Conn.fail_next("no socket")
        if Conn.delay:
            time.sleep(Conn.delay)
        self.closed = 0
        self.dropped = False
        self.sock, self.peer = socket.socketpair()
        Conn.log.append(self)

    def drop(self, how):
        if self.dropped:
            return
        self.dropped = True
        if how == "close":
            self.peer.close()
        elif how == "data":
            self.peer.send(b"x")
        else:
            self.sock.close()

    def close(self):
        self.closed += 1
        try:
            self.sock.close()
        finally:
            self.peer.close()

    def fileno(self):
        return self.sock.fileno()


class Pool(ConnectionPool):
    ConnectionCls = Conn


def seq_history(R, cfg, n):
    r = R.rng
    Conn.log = []
    hist = []
    inp = (cfg, hist)
    R.case(cfg, n, r.random())
    try:
        pool = Pool(KEY, **cfg)
    except EmptyPoolError:
        R.check(cfg["initial_connections"] > cfg["max_connections"], "init", "cannot create the pool", inp)
        for c in Conn.log:
            c.close()
        return
    held = []
    closed = False
    try:
        for _ in range(n):
            live = [c for c in Conn.log if not c.closed]
            idle = [c for c in live if c not in held]
            op = r.choice(["get", "get", "get", "put", "put", "drop", "failget", "close"] if r.random() < .1 else ["get", "get", "put", "drop"])
            hist.append(op)
            if op in ("get", "failget"):
                Conn.fail_next = op == "failget" and r.choice([OSError, ValueError])
                try:
                    c = pool.get_conn(timeout=0.01) if cfg["block"] else pool.get_conn()
                except ClosedPoolError:
                    if not R.check(closed, "closed-error", "closed-pool error from an open pool", inp):
                        return
                    continue
                except (EmptyPoolError, OSError, ValueError) as e:
                    Conn.fail_next = False
                    if isinstance(e, (OSError, ValueError)):
                        if not R.check(op == "failget", "error", repr(e), inp):
                            return
                    if closed:
                        R.fail("closed-error", "%r from a closed pool" % e, inp)
                        return
                    if idle and not any(c.dropped for c in idle) and pool.pool.qsize() == len(idle) - 1 and len(idle) - 1 < cfg["min_free_connections"] \
                            and (op == "failget" or len(live) >= cfg["max_connections"]):
                        R.fail(LOST, "get_conn raised %s after taking an idle connection from the pool" % type(e).__name__, inp)
                        R.failures[-1:] = R.failures[-1:] if sum(f["key"] == LOST for f in R.failures) == 1 else []
                        return
                    if op == "get" and idle and not cfg["min_free_connections"]:
                        R.fail("refused", "get_conn raised %r with %d of %d connections in use and %d idle" % (type(e).__name__, len(live), cfg["max_connections"], len(idle)), inp)
                        return
                    if any(c.dropped for c in idle):
                        return      # the same, with a dropped connection: the model stops here
                    if not R.check(op == "failget" or len(live) >= cfg["max_connections"] or cfg["block"], "refused", "empty-pool error with %d of %d connections in use" % (len(live), cfg["max_connections"]), inp):
                        return
                    continue
                finally:
                    Conn.fail_next = False
                if closed:
                    R.fail("get-after-close", "a closed pool handed out a connection", inp)
                    return
                if not (R.check(c is not None and not c.closed, "handed-closed", "a closed connection was handed out", inp)
                        and R.check(not c.dropped, "handed-dropped", "a dropped connection was handed out", inp)
                        and R.check(c not in held, "handed-twice", "a connection was handed out twice", inp)):
                    return
                held.append(c)
            elif op == "put" and held:
                c = held.pop(r.randrange(len(held)))
                pool.put_conn(c)
                room = not closed and len(idle) < cfg["max_free_connections"]
                if not R.check(bool(c.closed) != room, "put", "connection given back with %d idle of at most %d (pool %s) is %s" % (
                        len(idle), cfg["max_free_connections"], "closed" if closed else "open", "closed" if c.closed else "kept"), inp):
                    return
            elif op == "drop":
                if idle and r.random() < .7:
                    r.choice(idle).drop(r.choice(["close", "data", "self"]))
            elif op == "close":
                if r.random() < .4 and not closed:
                    continue
                pool.close()
                closed = True
                pool.close()
                for c in idle:
                    if not R.check(c.closed, "close-idle", "an idle connection was not closed by close()", inp):
                        return
                for c in held:
                    if not R.check(not c.closed, "close-held", "close() closed a connection in use", inp):
                        return
            if not closed:
                live = [c for c in Conn.log if not c.closed]
                if not (R.check(pool.num_connections <= cfg["max_connections"], "limit", "%d connections counted, at most %d allowed" % (pool.num_connections, cfg["max_connections"]), inp)
                        and R.check(pool.num_connections == len(live), "count", "%d connections counted, %d exist" % (pool.num_connections, len(live)), inp)
                        and R.check(pool.pool.qsize() == len(live) - len(held), "idle", "%d connections idle, %d exist and %d are held" % (pool.pool.qsize(), len(live), len(held)), inp)
                        and R.check(all(c.closed <= 1 for c in Conn.log), "close-twice", "a connection was closed twice", inp)):
                    return
    except Exception as e:
        R.fail("error", repr(e), inp)
    finally:
        for c in Conn.log:
            c.close()


def counted_pool():
    """a pool whose counter yields to other threads at every access (to widen races), and remembers its maximum"""
    if "num_connections" in vars(ConnectionPool):
        return Pool, None
    peak = [0]

    class P(Pool):
        @property
        def num_connections(self):
            v = self.__dict__.get("_n", 0)
            time.sleep(0.0002)
            return v

        @num_connections.setter
        def num_connections(self, v):
            time.sleep(0.0002)
            self.__dict__["_n"] = v
            peak[0] = max(peak[0], v)
    return P, peak


def threads(R, round_):
    r = R.rng
    P, peak = counted_pool()
    Conn.log = []
    Conn.delay = r.choice([0, 0.001])
    mx = r.choice([1, 2, 3, 5])
    cfg = dict(initial_connections=0 if round_ % 2 else min(1, mx), max_connections=mx, max_free_connections=r.choice([1, 2, 3]), min_free_connections=r.choice([0, 0, 1]), block=False)
    R.case("threads", cfg, round_)
    pool = P(KEY, **cfg)
    held, lk, bad, lost = set(), threading.Lock(), [], [0]
    start = threading.Barrier(6)

    def work(seed):
        rr = random.Random(seed)
        start.wait()
        mine = []
        for _ in range(12):
            if mine and rr.random() < .5:
                c = mine.pop()
                with lk:
                    held.discard(c)
                pool.put_conn(c)
                continue
            try:
                c = pool.get_conn()
            except EmptyPoolError:
                continue
            except Exception as e:
                bad.append(("error", repr(e)))
                continue
            with lk:
                if c in held:
                    bad.append(("handed-twice", "two threads got the same connection"))
                if c.closed:
                    bad.append(("handed-closed", "a closed connection was handed out"))
                held.add(c)
            mine.append(c)
        for c in mine:
            with lk:
                held.discard(c)
            pool.put_conn(c)
    ts = [threading.Thread(target=work, args=(r.random(),), daemon=True) for _ in range(6)]
    [t.start() for t in ts]
    end = time.time() + 30
    for t in ts:
        t.join(max(0, end - time.time()))
    Conn.delay = 0
    if any(t.is_alive() for t in ts):
        R.fail("hang", "threads using the pool do not finish", cfg)
        return
    for k, w in bad[:2]:
        R.fail(k, w, ("6 threads", cfg))
    if peak:
        R.check(peak[0] <= mx, "limit", "%d connections counted, at most %d allowed" % (peak[0], mx), ("6 threads", cfg))
    n, live = pool.num_connections, [c for c in Conn.log if not c.closed]
    R.check(n == len(live), "count", "%d connections counted, %d exist after all threads gave theirs back" % (n, len(live)), ("6 threads", cfg))
    pool.close()
    if cfg["min_free_connections"] == 0:
        left = [c for c in Conn.log if not c.closed]
        R.check(not left, "close-idle", "%d connections left open after close" % len(left), ("6 threads", cfg))
    for c in Conn.log:
        c.close()


def race_close(R, i):
    """connections put back and taken while another thread closes the pool"""
    Conn.log = []
    pool = Pool(KEY, initial_connections=1, max_connections=50, max_free_connections=40, min_free_connections=0)
    conns = [pool._new_conn() for _ in range(15)]
    for c in conns[:5]:
        pool.put_conn(c)
    R.case("close race", i)
    b = threading.Barrier(3)
    got, errs = [], []

    def putter():
        b.wait()
        for c in conns[5:]:
            try:
                pool.put_conn(c)
            except Exception as e:
                errs.append(e)

    def getter():
        b.wait()
        for _ in range(6):
            try:
                got.append(pool.get_conn())
            except ClosedPoolError:
                pass
            except Exception as e:
                errs.append(e)

    def closer():
        b.wait()
        try:
            pool.close()
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=f, daemon=True) for f in (putter, getter, closer)]
    [t.start() for t in ts]
    [t.join(20) for t in ts]
    R.check(not errs, "error", "%r while the pool is closed concurrently" % errs[:1], "put, get and close in three threads")
    for c in got:
        pool.put_conn(c)
    left = [c for c in Conn.log if not c.closed]
    R.check(not left, "close-idle", "%d connections left open after close" % len(left), "put, get and close in three threads")
    for c in Conn.log:
        c.close()


def hooked_close(R, where):
    """the pool is closed by another thread exactly while a connection is put into or taken from its queue"""
    Conn.log = []
    armed = [False]

    def closer():
        if not armed[0]:
            return
        armed[0] = False
        t = threading.Thread(target=pool.close, daemon=True)
        t.start()
        t.join(0.3)
        ts.append(t)
    ts = []

    class Q(ConnectionPool.QueueCls):
        def put(self, *a, **kw):
            if where == "put":
                closer()
            return super().put(*a, **kw)

        def get(self, *a, **kw):
            c = super().get(*a, **kw)
            if where == "get":
                closer()
            return c

    class P(Pool):
        QueueCls = Q
    R.case("close during", where)
    pool = P(KEY, initial_connections=3, max_connections=9, max_free_connections=5, min_free_connections=1)
    c = pool.get_conn()
    armed[0] = True
    d = None
    try:
        if where == "put":
            pool.put_conn(c)
        else:
            d = pool.get_conn()
    except ClosedPoolError:
        R.check(where == "get", "error", "closed-pool error from put_conn", where)
    except Exception as e:
        R.fail("error", "%r while the pool is closed concurrently" % e, where)
    for t in ts:
        t.join(10)
    for x in (c, d):
        if x is not None and not (where == "put" and x is c):
            pool.put_conn(x)
    left = [x for x in Conn.log if not x.closed]
    R.check(not left, "close-idle", "%d connections left open after close, which ran during %s_conn" % (len(left), where), where)
    for x in Conn.log:
        x.close()


def run(R):
    r = R.rng
    # the pinned example of the known finding
    with R.guard(30, "hang", "pool history", "sequential"):
        for cfg in (dict(initial_connections=1, max_connections=1, max_free_connections=1, min_free_connections=1, block=False),
                    dict(initial_connections=3, max_connections=3, max_free_connections=4, min_free_connections=3, block=False)):
            seq_history(R, cfg, 12)
    for i in range(4000 if R.thorough else 700):
        mx = r.choice([1, 2, 3, 5, 8])
        free = r.choice([1, 2, 3, 5])
        cfg = dict(initial_connections=r.choice([0, 1, min(mx, free)]), max_connections=mx, max_free_connections=free, min_free_connections=r.choice([0, 0, 0, 1, 1, 2, 3]), block=r.random() < .15)
        with R.guard(20, "hang", "pool history", cfg):
            seq_history(R, cfg, r.choice([5, 15, 40]))
    sw = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    for i in range(60 if R.thorough else 14):
        threads(R, i)
        for j in range(6):
            race_close(R, i)
    sys.setswitchinterval(sw)
    with R.guard(20, "hang", "close during put or get", "hooked"):
        hooked_close(R, "put")
        hooked_close(R, "get")
    # real connections, dropped by the server
    from mysockpool import ConnectionPool as CP
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(50)
    key = SocketConnection.PoolKeyCls(host="127.0.0.1", port=srv.getsockname()[1])
    with R.guard(20, "hang", "real connections", "real"):
        pool = CP(key, initial_connections=2, max_connections=3, max_free_connections=3, min_free_connections=0)
        peers = [srv.accept()[0] for _ in range(2)]
        c = pool.get_conn()
        R.case("real")
        R.check(pool.num_connections == 2, "count", "%d counted" % pool.num_connections, "real connections")
        pool.put_conn(c)
        [p.close() for p in peers]
        time.sleep(0.05)
        d = pool.get_conn()
        peer = srv.accept()[0]
        R.check(d is not c and d.sock.fileno() >= 0, "handed-dropped", "a connection closed by the server was handed out", "real connections")
        R.check(pool.num_connections == 2, "count", "%d connections counted after one of two was found dropped" % pool.num_connections, "real connections")
        d.close()
