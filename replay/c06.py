"""C06: responses reach their own calls."""
import threading
from aiofake import *


def scenario(R, i):
    r = R.rng
    n = r.choice([1, 2, 3, 5, 12])
    statuses, sent, script = {}, {}, []
    early = r.random() < .3
    R.case("scenario", i, n)
    with Net() as net:
        c = client()
        SERVICE_MAP.pop("svc", None)
        SERVICE_MAP["svc"] = ("10.0.0.1", 1)
        SERVICE_MAP.pop("svc2", None)
        SERVICE_MAP["svc2"] = ("10.0.0.2", 2)
        inp = ("seed-case", i, script)
        if r.random() < .4:
            async def slow(conn):
                await asyncio.sleep(r.choice([0, 0, 0.002]))
            net.on_drain = slow

        def respond(conn, ids):
            out = []
            for rid in ids:
                bodies = []
                k = r.random()
                st = 0 if k < .75 else r.choice([1, 2, 3, 6, 7])
                body = ("c%d-%d-%d" % (i, rid, len(script))).encode() * r.choice([1, 1, 50])
                frames = [(rid, st, body)]
                if r.random() < .3:
                    frames.append((rid, 0, body + b"-dup"))         # a duplicate, later
                if r.random() < .4:
                    frames.insert(r.choice([0, len(frames)]), (r.choice([rid + 1000000, 5, 2 ** 31 - 1]), r.choice([0, 3]), b"unknown"))
                out += frames
            for rid, st, body in out:
                script.append((rid, st, short(body, 30)))
                sent.setdefault(rid, []).append((st, body))
            bs = b"".join(enc_resp(rid, r.choice([{}, {"a": "b"}]), body, status=st) for rid, st, body in out)
            if r.random() < .5:
                conn.feed(bs, [r.choice([1, 3, 20, 21, 50, 1000]) for _ in range(60)])
            else:
                ps, p = [], 0
                while p < len(bs):
                    k = r.choice([7, 20, 21, 64, 500, 5000])
                    ps.append(bs[p:p + k])
                    p += k
                conn.feed_slowly(ps, 0)
        waiting = {}
        lock = threading.Lock()

        def on_frame(conn, f):
            if early:
                respond(conn, [f.request_id])
                return
            waiting.setdefault(conn, []).append(f.request_id)
        net.on_frame = on_frame
        calls = []
        for j in range(n):
            calls.append(c.invoke_async(r.choice(["svc", "svc", "svc2"]), "m", b"q%d" % j, spanctx=SpanContext()))
            if r.random() < .2:
                settle(c, 2)
        if not wait_until(lambda: len(net.frames) == n):
            R.fail("send", "%d of %d requests written" % (len(net.frames), n), inp)
            return
        if not early:
            for conn, ids in waiting.items():
                r.shuffle(ids)
                k = r.randrange(len(ids) + 1)
                respond(conn, ids[:k])
                settle(c, 2)
                respond(conn, ids[k:])
        if not R.check(done(calls), "hang", "a call whose response arrived does not end", inp):
            return
        by_content = {}
        for conn, f in net.frames:
            by_content[f.content] = f.request_id
        R.check(len(set(by_content.values())) == n, "ids", "two calls use the same request id", inp)
        for j, call in enumerate(calls):
            rid = by_content.get(b"q%d" % j)
            kind, v = outcome(call)
            mine = sent.get(rid, [])
            if kind == "ok":
                R.check((0, v) in mine, "foreign", "call with request id %r returned %r, the responses with its id are %s" % (rid, short(v, 60), short(mine)), inp)
            else:
                R.check(any(st for st, b in mine), "error", "call with request id %r and only successful responses failed: %r" % (rid, v), inp)
        # nothing was disturbed: one more call on every connection in use
        net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"after"))
        dials = len(net.dials)
        for s in ("svc", "svc2"):
            f = c.invoke_async(s, "m", b"last", spanctx=SpanContext())
            if not done([f], 3):
                R.fail("disturbed", "a later call gets no response", inp)
            else:
                R.check(outcome(f) == ("ok", b"after"), "disturbed", "a later call ended with %r" % (outcome(f),), inp)


def far_ids(R):
    """two calls at the same time whose ids differ in one bit, or are the same number of digits apart"""
    from anthunder.protocol import BoltRequest, SofaHeader
    from anthunder.protocol.constants import PTYPE, CMDCODE
    r = R.rng
    with Net() as net:
        c = client()
        SERVICE_MAP.pop("svc", None)
        SERVICE_MAP["svc"] = ("10.0.0.1", 1)

        async def two(a, b):
            def req(i):
                h = SofaHeader(sofa_head_target_service="svc", sofa_head_method_name="m", service="svc")
                return c.invoke(BoltRequest(h, b"q%d" % i, ptype=PTYPE.REQUEST, cmdcode=CMDCODE.REQUEST, request_id=i, timeout=3000))
            return await asyncio.wait_for(asyncio.gather(req(a), req(b), return_exceptions=True), 2)
        for x in [1 << k for k in range(31)] + [10 ** k for k in range(1, 10)]:
            a = r.randrange(2 ** 31)
            b = a ^ x if x & (x - 1) == 0 else (a + x) % 2 ** 31
            R.case("far", x)
            got = {}

            def on_frame(conn, f):
                got[f.request_id] = conn
                if len(got) == 2:
                    conn.feed(b"".join(enc_resp(i, b"", b"for %d" % i) for i in r.choice([(a, b), (b, a)])))
            net.on_frame = on_frame
            try:
                out = on_loop(c, two(a, b))
            except BaseException as e:
                R.fail("hang", "calls with ids %d and %d: %r" % (a, b, e), (a, b))
                return
            for i, o in zip((a, b), out):
                R.check(getattr(o, "content", o) == b"for %d" % i, "foreign", "the call with id %d was answered with %r but ended with %r" % (i, b"for %d" % i, getattr(o, "content", o)), (a, b))


def late(R, i):
    """the response to a call that timed out arrives during a later call"""
    with Net() as net:
        c = client()
        SERVICE_MAP.pop("svc", None)
        SERVICE_MAP["svc"] = ("10.0.0.1", 1)
        R.case("late", i)
        try:
            c.invoke_sync("svc", "m", b"q1", spanctx=SpanContext(), timeout_ms=40)
            R.fail("foreign", "a call without response returned", "late response")
        except BaseException:
            pass
        if not wait_until(lambda: net.frames):
            return
        conn, f1 = net.frames[0]
        net.on_frame = lambda conn, f: conn.feed((enc_resp(f1.request_id, b"", b"stale") + enc_resp(f.request_id, b"", b"fresh")) if i % 2 else
                                                 (enc_resp(f.request_id, b"", b"fresh") + enc_resp(f1.request_id, b"", b"stale")))
        try:
            out = c.invoke_sync("svc", "m", b"q2", spanctx=SpanContext(), timeout_ms=3000)
        except BaseException as e:
            out = e
        R.check(out == b"fresh", "foreign", "a call answered with 'fresh' gave %r (a response to an earlier, timed-out call arrived as well)" % (out,), "late response")


def before(R, i):
    """a response that came before the call with its id was made is not the answer to that call"""
    from anthunder.protocol import BoltRequest, SofaHeader
    from anthunder.protocol.constants import PTYPE, CMDCODE
    with Net() as net:
        c = client()
        SERVICE_MAP.pop("svc", None)
        SERVICE_MAP["svc"] = ("10.0.0.1", 1)
        R.case("before", i)
        rid = R.rng.randrange(10 ** 6, 2 ** 31)

        def first(conn, f):
            conn.feed(enc_resp(rid, b"", b"stale") + enc_resp(f.request_id, b"", b"one"))
        net.on_frame = first
        if not done([c.invoke_async("svc", "m", b"q", spanctx=SpanContext())], 3):
            return R.fail("disturbed", "a call answered after a response with an unknown id does not end", rid)
        net.on_frame = lambda conn, f: conn.feed(enc_resp(rid, b"", b"own", cmdcode=1 if i % 2 else 2))

        async def call():
            h = SofaHeader(sofa_head_target_service="svc", sofa_head_method_name="m", service="svc")
            return await asyncio.wait_for(c.invoke(BoltRequest(h, b"q", ptype=PTYPE.REQUEST, cmdcode=CMDCODE.REQUEST, request_id=rid, timeout=1000)), 3)
        try:
            out = on_loop(c, call())
        except BaseException as e:
            out = e
        R.check(getattr(out, "content", out) != b"stale", "foreign", "a call returned a response which arrived before it was made", rid)


def heartbeat_mix(R, i):
    """heartbeats and calls share a connection"""
    with Net() as net:
        c = client()
        SERVICE_MAP.pop("svc", None)
        SERVICE_MAP["svc"] = ("10.0.0.1", 1)
        R.case("heartbeat mix", i)
        seen = []
        net.on_frame = lambda conn, f: seen.append((conn, f))
        h = asyncio.run_coroutine_threadsafe(c.invoke_heartbeat(("10.0.0.1", 1)), c._loop)
        f = c.invoke_async("svc", "m", b"q", spanctx=SpanContext())
        if not wait_until(lambda: len(seen) == 2):
            return R.fail("send", "requests not written", "heartbeat and call")
        conn = seen[0][0]
        for cn, fr in (seen if i % 2 else seen[::-1]):
            cn.feed(enc_resp(fr.request_id, cmdcode=0, cls=b"") if fr.cmdcode == 0 else enc_resp(fr.request_id, b"", b"mine"))
        ok = done([f, h], 3)
        R.check(ok and outcome(f) == ("ok", b"mine"), "foreign", "call next to a heartbeat ended with %r" % (outcome(f) if f.done() else "nothing",), "heartbeat and call")


def run(R):
    far_ids(R)
    for i in range(300 if R.thorough else 90):
        scenario(R, i)
    for i in range(4):
        late(R, i)
        before(R, i)
        heartbeat_mix(R, i)
