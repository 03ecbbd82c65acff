"""C16: recently used container."""
import threading
from collections import OrderedDict
from lib import *
from mysockpool.recently_used_container import RecentlyUsedContainer


class V:
    n = 0

    def __init__(self):
        V.n += 1
        self.i = V.n

    def __repr__(self):
        return "v%d" % self.i


class Eq(V):
    """equal to every other value of this kind, though another object"""
    def __eq__(self, o):
        return isinstance(o, Eq)

    def __hash__(self):
        return 1


class Falsy(V):
    def __bool__(self):
        return False


class Empty(V):
    def __len__(self):
        return 0


def lock_free(lock):
    out = []
    def f():
        ok = lock.acquire(blocking=False)
        if ok:
            lock.release()
        out.append(ok)
    t = threading.Thread(target=f)
    t.start()
    t.join()
    return out[0]


def history(R, size, n):
    r = R.rng
    log, hist, bad = [], [], []
    c = None

    def dispose(v):
        log.append(v)
        lock = getattr(c, "lock", None)
        if lock is not None and (R.cases % 8 == 0) and not lock_free(lock):
            bad.append(v)
    use_cb = r.random() < .9
    c = RecentlyUsedContainer(size, dispose if use_cb else None)
    m = OrderedDict()
    inp = (size, hist)
    keys = ["a", "b", "c", "d", ("t", 1), 5, ""][:max(2, min(7, size + 2))]
    R.case(size, n, r.random())
    stored = []
    last = {}
    try:
        for _ in range(n):
            k = r.choice(keys)
            op = r.choice(["set"] * 5 + ["get"] * 3 + ["get2", "in", "del", "pop", "setdefault", "same", "update", "len", "keys"] + (["clear"] if r.random() < .3 else []))
            exp = []
            del log[:]
            held_before = list(m.values())
            hist.append((op, k))
            def mset(k, v):
                if k in m:
                    old = m.pop(k)
                    if old is not v:
                        exp.append(old)
                m[k] = v
                if len(m) > size:
                    exp.append(m.popitem(last=False)[1])
            if op in ("set", "setdefault", "update"):
                v = r.choice([V, V, Eq, Falsy, Empty])()
                hist[-1] += (v,)
                if op == "set":
                    c[k] = v
                    mset(k, v)
                elif op == "update":
                    c.update({k: v})
                    mset(k, v)
                elif size > 0:
                    got = c.setdefault(k, v)
                    if k in m:
                        m.move_to_end(k)
                        R.check(got is m[k], "lookup", "setdefault gives %r instead of %r" % (got, m[k]), inp)
                    else:
                        mset(k, v)
                        R.check(got is v, "lookup", "setdefault gives %r instead of %r" % (got, v), inp)
            elif op == "same" and k in m:
                v = m[k]
                c[k] = v
                m.move_to_end(k)
            elif op in ("get", "get2"):
                try:
                    got = c[k] if op == "get" else c.get(k, KeyError)
                    if got is KeyError:
                        raise KeyError(k)
                    if not R.check(k in m, "lookup", "lookup of %r, which is not stored, gives %r" % (k, got), inp):
                        return
                    R.check(got is m[k], "lookup", "lookup of %r gives %r instead of %r" % (k, got, m[k]), inp)
                    m.move_to_end(k)
                except KeyError:
                    if not R.check(k not in m, "lookup", "%r is stored but not found" % (k,), inp):
                        return
            elif op == "in":
                if not R.check((k in c) == (k in m), "lookup", "membership of %r" % (k,), inp):
                    return
                if k in m:
                    c[k]
                    m.move_to_end(k)
            elif op in ("del", "pop"):
                try:
                    if op == "del":
                        del c[k]
                    else:
                        got = c.pop(k)
                        R.check(k in m and got is m[k], "lookup", "pop gives %r" % (got,), inp)
                    if not R.check(k in m, "lookup", "deleted %r, which is not stored" % (k,), inp):
                        return
                    exp.append(m.pop(k))
                except KeyError:
                    if not R.check(k not in m, "lookup", "%r is stored but cannot be deleted" % (k,), inp):
                        return
            elif op == "clear":
                c.clear()
                exp += list(m.values())
                m.clear()
            if not (R.check(len(c) == len(m), "size", "%d entries instead of %d" % (len(c), len(m)), inp)
                    and R.check(len(c) <= size, "size", "%d entries, at most %d allowed" % (len(c), size), inp)
                    and R.check(set(c.keys()) == set(m), "keys", "keys %r instead of %r" % (list(c.keys()), list(m)), inp)):
                return
            if use_cb:
                if not R.check(sorted(v.i for v in log) == sorted(v.i for v in exp), "dispose", "disposed %r instead of %r" % (log, exp), inp):
                    return
            if bad:
                R.fail("lock", "a value was disposed of inside the lock", inp)
                return
    except Exception as e:
        R.fail("error", repr(e), inp)


def threads(R, i):
    r = R.rng
    size = r.choice([1, 2, 4])
    lk, log = threading.Lock(), []
    def dispose(v):
        with lk:
            log.append(v)
    c = RecentlyUsedContainer(size, dispose)
    allv = []
    R.case("threads", size, i)
    errs = []
    def work(seed):
        rr = random.Random(seed)
        mine = []
        for _ in range(120):
            k = rr.randrange(size + 2)
            x = rr.random()
            try:
                if x < .6:
                    v = V()
                    mine.append(v)
                    c[k] = v
                elif x < .8:
                    c.get(k)
                elif x < .95:
                    try:
                        del c[k]
                    except KeyError:
                        pass
                else:
                    c.clear()
                if len(c) > size:
                    errs.append("%d entries, at most %d allowed" % (len(c), size))
            except Exception as e:
                errs.append(repr(e))
        with lk:
            allv.extend(mine)
    ts = [threading.Thread(target=work, args=(r.random(),), daemon=True) for _ in range(5)]
    [t.start() for t in ts]
    [t.join(30) for t in ts]
    if any(t.is_alive() for t in ts):
        R.fail("hang", "threads using the container do not finish", size)
        return
    held = [c[k] for k in list(c.keys())]
    ids = sorted(v.i for v in log + held)
    R.check(not errs, "threads", errs[:1], size)
    # V.i may repeat across threads, objects may not
    objs = [id(v) for v in log + held]
    R.check(len(set(objs)) == len(objs), "dispose", "a value was disposed of twice, or while held", ("5 threads", size))
    R.check(set(objs) == set(id(v) for v in allv), "dispose", "%d values stored, %d disposed of or held" % (len(allv), len(objs)), ("5 threads", size))


def run(R):
    for i in range(8000 if R.thorough else 1500):
        with R.guard(20, "hang", "container history", i):
            history(R, R.rng.choice([0, 1, 1, 2, 2, 3, 5, 10]), R.rng.choice([4, 10, 30]))
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    for i in range(60 if R.thorough else 15):
        threads(R, i)
    sys.setswitchinterval(sw)
