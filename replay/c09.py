"""C09: one-way calls and heartbeats of the clients."""
import threading
from aiofake import *
from anthunder import Client
ADDR = ("10.0.0.1", 1)


def setup():
    c = client()
    SERVICE_MAP.pop("svc", None)
    SERVICE_MAP["svc"] = ADDR
    return c


def oneway(R):
    r = R.rng
    for i in range(20):
        m, content, extra = r.choice(["hello", "x"]), rand_bytes(r, 200), r.choice([{}, {"a": "b"}, {"target_app": "t", "uid": "u"}])
        inp = (m, content, extra)
        R.case("oneway", inp)
        with Net() as net:
            c = setup()
            t0 = time.time()
            try:
                out = c.invoke_oneway("svc", m, content, spanctx=SpanContext(), **extra)
            except Exception as e:
                R.fail("error", repr(e), inp)
                continue
            R.check(time.time() - t0 < 1.5, "waits", "a one-way call waited", inp)
            if R.check(wait_until(lambda: net.frames, 2), "not-sent", "a one-way call sent nothing", inp):
                f = net.frames[0][1]
                R.check(f.ptype == 2, "marking", "a one-way call is sent with type %d" % f.ptype, inp)
                R.check(f.cmdcode == 1 and f.content == content and f.cls == REQ_CLASS and dec_map(f.hdr).get("sofa_head_method_name") == m, "request", "a one-way call sent %r" % dict(f), inp)
            settle(c, 10)
            R.check(len(net.frames) == 1, "once", "a one-way call sent %d requests" % len(net.frames), inp)
            net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"x"))
            g = c.invoke_async("svc", m, b"two-way", spanctx=SpanContext())
            if R.check(done([g], 3), "after", "a call after a one-way call does not end", inp):
                R.check(net.frames[-1][1].ptype == 1, "marking", "a two-way call is sent with type %d" % net.frames[-1][1].ptype, inp)


def oneway_blocking(R):
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(10)
    SERVICE_MAP.pop("blk", None)
    SERVICE_MAP["blk"] = ("127.0.0.1", srv.getsockname()[1])
    with Mesh(lambda *a: requests.ConnectionError("no mesh")):
        c = Client("app")
    for i in range(4):
        content = rand_bytes(R.rng, 100)
        R.case("blocking oneway", content)
        got = []

        def serve():
            srv.settimeout(5)
            try:
                while not got:      # a pool may open more connections than it uses
                    s, _ = srv.accept()
                    bs, _ = recv_until(s, lambda b: dec_frames(b, True)[0], 1.0)
                    got.extend(dec_frames(bs, True)[0])
            except OSError:
                pass
        t = threading.Thread(target=serve, daemon=True)
        t.start()
        with R.guard(6, "waits", "a one-way call of the blocking client waits", content):
            try:
                c.invoke_oneway("blk", "m", content, spanctx=SpanContext())
            except Exception as e:
                R.fail("error", repr(e), content)
        t.join(6)
        if R.check(got, "not-sent", "a one-way call of the blocking client sent nothing", content):
            R.check(got[0].ptype == 2 and got[0].content == content and got[0].cmdcode == 1, "marking", "blocking one-way call sent %r" % dict(got[0]), content)
    srv.close()


def heartbeats(R):
    outcomes = [("success", lambda f: enc_resp(f.request_id, cmdcode=0, cls=b""), True)]
    outcomes += [("status " + n, lambda f, s=s: enc_resp(f.request_id, cmdcode=0, cls=b"", status=s), False) for n, s in STATUSES.items() if s]
    outcomes += [("success with the class name", lambda f: enc_resp(f.request_id, cmdcode=0), None),
                 ("business response", lambda f: enc_resp(f.request_id, cmdcode=2), False), ("request command", lambda f: enc_resp(f.request_id, cmdcode=1), False),
                 ("another id", lambda f: enc_resp((f.request_id + 7) % 2 ** 31, cmdcode=0, cls=b""), False), ("nothing", lambda f: b"", False),
                 ("undecodable", lambda f: enc_resp(f.request_id, b"\0\0\0\x07a", cmdcode=0, cls=b""), False), ("unknown status", lambda f: enc_resp(f.request_id, cmdcode=0, cls=b"", status=77), False),
                 ("fragments", lambda f: enc_resp(f.request_id, cmdcode=0, cls=b""), True)]
    for nm, mk, want in outcomes:
        R.case("heartbeat", nm)
        with Net() as net:
            c = setup()
            net.on_frame = lambda conn, f: conn.feed(mk(f), [1] * 30 if nm == "fragments" else None)
            h = asyncio.run_coroutine_threadsafe(c.invoke_heartbeat(ADDR), c._loop)
            done([h], 3 if want else 0.4)
            try:
                out = h.result(0) if h.done() else "pending"
            except BaseException as e:
                out = e
            if want is not None:
                R.check((out is True) == want, "heartbeat", "heartbeat answered with %s gives %r" % (nm, out), nm)
            if R.check(net.frames, "heartbeat-request", "no heartbeat sent", nm):
                f = net.frames[0][1]
                R.check(f.raw in (enc_req(f.request_id, cmdcode=0, cls=b"", timeout=0), enc_req(f.request_id, cmdcode=0, cls=b"", timeout=-1)), "heartbeat-request", "heartbeat request is %r" % dict(f), nm)
            R.check(len(net.dials) == 1 and net.dials[0] == ADDR, "heartbeat-request", "heartbeat connected to %r" % net.dials, nm)
            h.cancel()


def periodic(R):
    """the timer of a client with a mesh; asyncio.sleep is shortened and the requested delays recorded"""
    real = asyncio.sleep
    for nm in ("success", "status", "silence", "dial fails", "write fails", "undecodable", "closes", "wrong command", "mixed"):
        R.case("periodic", nm)
        delays = []

        async def sleep(d, *a, **kw):
            if d >= 5:
                delays.append(d)
                await real(0.01)
            else:
                await real(d, *a, **kw)
        with Net() as net:
            cnt = [0]

            def on_frame(conn, f):
                cnt[0] += 1
                k = nm if nm != "mixed" else ["success", "status", "silence", "undecodable", "closes", "wrong command"][cnt[0] % 6]
                if k == "success":
                    conn.feed(enc_resp(f.request_id, cmdcode=0, cls=b""))
                elif k == "status":
                    conn.feed(enc_resp(f.request_id, cmdcode=0, cls=b"", status=1))
                elif k == "undecodable":
                    conn.feed(enc_resp(f.request_id, cmdcode=0, cls=b"", status=77))
                elif k == "wrong command":
                    conn.feed(enc_resp(f.request_id, cmdcode=2))
                elif k == "closes":
                    conn.feed_eof()
            net.on_frame = on_frame
            if nm == "dial fails":
                net.on_dial = lambda a, n: OSError("no")
            if nm == "write fails":
                net.on_drain = lambda conn: ConnectionResetError("x")
            with mock.patch.object(asyncio, "sleep", sleep), Mesh() as m:
                c = AioClient("app")
                evidence = (lambda: len(net.dials)) if nm in ("dial fails",) else (lambda: sum(1 for w in net.conns if w.drains) if nm == "write fails" else len(net.frames))
                need = 5
                ok = wait_until(lambda: evidence() >= need and len(delays) >= need, 3)
                if not delays:
                    continue        # the timer does not use asyncio.sleep: not observable this way
                R.check(set(delays) == {30}, "interval", "heartbeat delays %r" % sorted(set(delays)), nm)
                R.check(ok, "periodic", "the heartbeat stopped after %d heartbeats (outcome of each: %s)" % (evidence(), nm), nm)
                if net.dials:
                    R.check(set(net.dials) == {("127.0.0.1", 12220)}, "interval", "heartbeats go to %r" % set(net.dials), nm)
                async def stop():
                    for t in asyncio.all_tasks():
                        if t is not asyncio.current_task():
                            t.cancel()
                on_loop(c, stop())


def run(R):
    oneway(R)
    oneway_blocking(R)
    heartbeats(R)
    periodic(R)
