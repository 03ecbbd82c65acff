"""C08: sending and retries of the asyncio client."""
import itertools
from aiofake import *


def setup(net):
    c = client()
    SERVICE_MAP.pop("svc", None)
    SERVICE_MAP["svc"] = ("10.0.0.1", 1)
    SERVICE_MAP.pop("svc2", None)
    SERVICE_MAP["svc2"] = ("10.0.0.2", 1)
    net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"ok" + f.content))
    return c


def attempts(R, plan):
    """plan: what happens on the n-th connection: ok, or where sending fails"""
    R.case("plan", plan)
    with Net() as net:
        c = setup(net)

        def step(conn):
            return plan[conn.n] if conn.n < len(plan) else "ok"
        net.on_dial = lambda a, n: OSError("dial") if n < len(plan) and plan[n] == "dial" else None
        net.on_drain = lambda conn: ConnectionResetError("drain") if (step(conn) == "drain" and conn.drains == 1) or (step(conn) == "drain2" and conn.drains == 2) else None
        net.on_write = lambda conn, d: RuntimeError("write") if step(conn) == "write" else None
        if "drain2" in plan:
            net.on_frame = lambda conn, f: step(conn) == "ok" and conn.feed(enc_resp(f.request_id, b"", b"ok" + f.content))
        f = c.invoke_async("svc", "m", b"q", spanctx=SpanContext(), trace="t" * 50)
        ended = done([f], 3)
        if not R.check(ended, "hang", "the call does not end", plan):
            return
        out = outcome(f)
        tried = [x for x in net.dials]
        R.check(len(tried) <= 3, "attempts", "%d attempts (connections opened)" % len(tried), plan)
        for w in net.conns:
            R.check(not w.used_after_failure, "reuse-failed", "a connection on which sending failed was used again", plan)
            R.check(w.buf == b"" or (len(w.frames) == 1 and w.frames[0].raw == w.buf and w.frames[0].content == b"q"), "write", "connection received %s" % short(w.buf.hex(), 200), plan)
        bufs = {w.buf for w in net.conns if w.buf}
        R.check(len(bufs) <= 1, "write", "attempts wrote different bytes", plan)
        want_ok = False
        for k, p in enumerate(plan[:3] + ("ok",) * max(0, 3 - len(plan))):
            if p == "ok":
                want_ok = True
                break
            if p == "dial":
                want_ok = None      # the library may give up or retry
                break
        if want_ok is True:
            R.check(out == ("ok", b"okq"), "retry", "the call ended with %r though a retry would have succeeded" % (out,), plan)
        elif want_ok is False:
            R.check(out[0] == "error", "retry", "the call ended with %r though all three attempts failed" % (out,), plan)
        # afterwards: a live connection is reused, a failed one is not
        live = [w for w in net.conns if not w.failed and not w.closed]
        n = len(net.dials)
        plan = tuple(plan) + ("ok",) * 6
        net.on_drain = net.on_write = lambda *a: None
        net.on_dial = lambda *a: None
        net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"ok" + f.content))
        g = c.invoke_async("svc", "m", b"again", spanctx=SpanContext())
        if not R.check(done([g], 3), "hang", "a later call does not end", plan):
            return
        R.check(outcome(g) == ("ok", b"okagain"), "reuse", "a later call ended with %r" % (outcome(g),), plan)
        R.check(not any(w.used_after_failure for w in net.conns), "reuse-failed", "a connection on which sending failed was used again by a later call", plan)
        R.check(len(net.dials) == n + (0 if live else 1), "reuse", "a later call opened %d connections with %d live" % (len(net.dials) - n, len(live)), plan)


def concurrent(R, i):
    r = R.rng
    R.case("concurrent", i)
    with Net() as net:
        c = setup(net)
        fails = r.choice([0, 0, 1, 2])

        async def dial(addr, n):
            await asyncio.sleep(0.005)
            return OSError("dial") if n < fails else None
        net.on_dial = dial
        fs = []
        for j in range(8):
            fs.append(c.invoke_async(r.choice(["svc", "svc2"]) if i % 2 else "svc", "m", b"%d" % j, spanctx=SpanContext()))
            if i % 3 == 2 and r.random() < .5:
                time.sleep(r.choice([0.001, 0.003, 0.006]))     # some arrive while others wait
        if not R.check(done(fs, 4), "hang", "concurrent calls do not end", (i, fails)):
            return
        R.check(max(net.concurrent) == 1, "double-dial", "one address was dialled %d times at once" % max(net.concurrent), "8 concurrent calls")
        addrs = set(net.dials)
        if not fails:
            R.check(len(net.dials) == len(addrs), "double-dial", "%d connections opened to %d addresses" % (len(net.dials), len(addrs)), "8 concurrent calls")
            R.check(all(outcome(f) == ("ok", b"ok%d" % j) for j, f in enumerate(fs)), "reuse", "results %r" % [outcome(f) for f in fs], "8 concurrent calls")
        for w in net.conns:
            R.check(b"".join(f.raw for f in w.frames) == w.buf, "write", "frames interleaved on a connection", "8 concurrent calls")
            want = ("10.0.0.1", 1)
        n = len(net.dials)
        net.on_dial = lambda *a: None
        alive = {w.addr for w in net.conns if not w.closed}
        g = [c.invoke_async("svc", "m", b"a", spanctx=SpanContext()), c.invoke_async("svc2", "m", b"b", spanctx=SpanContext())]
        done(g, 3)
        want = n + len({("10.0.0.1", 1), ("10.0.0.2", 1)} - alive)
        R.check(len(net.dials) == want, "reuse", "later calls opened %d connections, %d addresses were connected" % (len(net.dials) - n, len(alive)), (i, fails))


def together(R, i):
    """several senders find out about the broken connection at different times"""
    r = R.rng
    R.case("together", i)
    with Net() as net:
        c = setup(net)
        f = c.invoke_async("svc", "m", b"first", spanctx=SpanContext())
        if not done([f], 3) or outcome(f)[0] != "ok":
            return R.fail("reuse", "first call failed", i)
        waits = [r.choice([0, 0.003, 0.006, 0.012]) for _ in range(4)]
        it = iter(waits)

        async def slow_fail(t):
            await asyncio.sleep(t)
            return ConnectionResetError("gone")

        def drain(conn):
            if conn.n == 0:
                try:
                    return slow_fail(next(it))
                except StopIteration:
                    return ConnectionResetError("gone")
        net.on_drain = drain
        fs = [c.invoke_async("svc", "m", b"%d" % j, spanctx=SpanContext()) for j in range(4)]
        if not R.check(done(fs, 4), "hang", "calls do not end after their connection broke", waits):
            return
        R.check(all(outcome(f) == ("ok", b"ok%d" % j) for j, f in enumerate(fs)), "retry", "results %r" % [outcome(f) for f in fs], waits)
        R.check(len(net.dials) == 2, "reuse", "%d connections opened after one broke (a live connection was not reused)" % (len(net.dials) - 1), waits)
        R.check(max(net.concurrent) == 1, "double-dial", "one address was dialled %d times at once" % max(net.concurrent), waits)
        g = c.invoke_async("svc", "m", b"z", spanctx=SpanContext())
        done([g], 3)
        R.check(len(net.dials) == 2, "reuse", "a later call opened another connection though one is live", waits)


def lost(R, i):
    """the peer closes an idle connection"""
    R.case("lost", i)
    with Net() as net:
        c = setup(net)
        f = c.invoke_async("svc", "m", b"first", spanctx=SpanContext())
        done([f], 3)
        conn = net.conns[0]
        net.on_drain = lambda w: ConnectionResetError("lost") if w.n == 0 else None
        conn.feed_eof(ConnectionResetError("r") if i % 2 else None)
        settle(c, 10)
        g = c.invoke_async("svc", "m", b"z", spanctx=SpanContext())
        if R.check(done([g], 3), "hang", "a call after its connection was lost does not end", i):
            R.check(outcome(g) == ("ok", b"okz"), "retry", "a call after its connection was lost ended with %r" % (outcome(g),), i)


def run(R):
    for n in (1, 2, 3, 4):
        for plan in itertools.product(("ok", "drain", "write", "drain2", "dial"), repeat=n):
            if "ok" in plan[:-1] or (n > 1 and "dial" in plan[:-1] and not R.thorough) or (n == 4 and not R.thorough and R.rng.random() < .8):
                continue
            attempts(R, plan)
    for i in range(60 if R.thorough else 16):
        concurrent(R, i)
        together(R, i)
        lost(R, i)
