"""C07: failures of the asyncio client are errors, nothing is left over."""
import threading
from aiofake import *
from anthunder.exceptions import ServerError
import concurrent.futures
TIMEOUTS = (TimeoutError, concurrent.futures.TimeoutError, asyncio.TimeoutError)


def setup():
    c = client()
    SERVICE_MAP.pop("svc", None)
    SERVICE_MAP["svc"] = ("10.0.0.1", 1)
    return c


def clean(R, c, what, inp):
    if not wait_until(lambda: not records(c), 1.5):
        R.fail("leftover", "the client keeps records of request ids %r after %s" % (records(c), what), inp)


def statuses(R, i):
    r = R.rng
    for name, st in STATUSES.items():
        for mode in ("sync", "async", "callback"):
            body = r.choice([b"", b"err", b"x" * 100])
            inp = (mode, name, body)
            R.case(inp)
            with Net() as net:
                c = setup()
                net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, r.choice([{}, {"k": "v"}]), body, status=st))
                got = []
                if mode == "sync":
                    try:
                        out = ("ok", c.invoke_sync("svc", "m", b"q", spanctx=SpanContext(), timeout_ms=3000))
                    except BaseException as e:
                        out = ("error", e)
                else:
                    kw = dict(callback=got.append, timeout_ms=r.choice([None, 3000])) if mode == "callback" else {}
                    f = c.invoke_async("svc", "m", b"q", spanctx=SpanContext(), **kw)
                    if not R.check(done([f]), "hang", "an answered call does not end", inp):
                        continue
                    out = outcome(f)
                    wait_until(lambda: got or st, 1)
                if st == 0:
                    R.check(out == ("ok", body), "result", "success response gave %r" % (out,), inp)
                    if mode == "callback":
                        R.check(got == [body], "callback", "callback got %r" % got, inp)
                else:
                    R.check(out[0] == "error", "status-ignored", "response with status %s gave the normal result %r" % (name, out[1]), inp)
                    if out[0] == "error":
                        R.check(isinstance(out[1], ServerError) and name in str(out[1]), "status-error", "response with status %s gave %r" % (name, out[1]), inp)
                    time.sleep(0.002)
                    R.check(not got, "callback", "callback got %r for a response with status %s" % (got, name), inp)
                clean(R, c, "an answered call", inp)


def undecodable(R):
    for nm, mk in (("status 99", lambda rid: enc_resp(rid, status=99)), ("bad header block", lambda rid: enc_resp(rid, b"\0\0\0\x09a")), ("proto 2", lambda rid: enc_resp(rid, proto=2)),
                   ("request command", lambda rid: enc_resp(rid, cmdcode=1)), ("heartbeat command", lambda rid: enc_resp(rid, cmdcode=0))):
        R.case(nm)
        with Net() as net:
            c = setup()
            got = []
            net.on_frame = lambda conn, f: conn.feed(mk(f.request_id))
            f = c.invoke_async("svc", "m", b"q", spanctx=SpanContext(), callback=got.append, timeout_ms=700)
            done([f], 1.0)
            if f.done():
                R.check(outcome(f)[0] == "error", "status-ignored", "response with %s gave the normal result %r" % (nm, outcome(f)[1]), nm)
                clean(R, c, "a call answered with " + nm, nm)
            R.check(not got, "callback", "callback got %r for a response with %s" % (got, nm), nm)


def unsendable(R):
    r = R.rng
    for nm in ("dial", "drain", "write", "second drain", "encode", "dial then fine", "encode map", "runtime"):
        for mode in ("sync", "async", "callback", "oneway"):
            inp = (nm, mode)
            R.case(inp)
            with Net() as net:
                c = setup()
                content, extra = b"q", {}
                if nm == "dial":
                    net.on_dial = lambda a, n: r.choice([ConnectionRefusedError("no"), OSError("x"), asyncio.TimeoutError()])
                elif nm == "dial then fine":
                    net.on_dial = lambda a, n: OSError("x") if n == 0 else None
                elif nm == "drain":
                    net.on_drain = lambda conn: ConnectionResetError("r")
                elif nm == "second drain":
                    net.on_drain = lambda conn: BrokenPipeError("r") if conn.drains % 2 == 0 else None
                elif nm == "write":
                    net.on_write = lambda conn, d: OSError("w")
                elif nm == "runtime":
                    net.on_write = lambda conn, d: RuntimeError("w")
                elif nm == "encode":
                    content = "not bytes"
                else:
                    extra = {"trace": "v" * 66000}
                if nm == "dial then fine":
                    net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"fine"))
                got, out = [], None
                try:
                    if mode == "sync":
                        out = ("ok", c.invoke_sync("svc", "m", content, spanctx=SpanContext(), timeout_ms=3000, **extra))
                    elif mode == "oneway":
                        c.invoke_oneway("svc", "m", content, spanctx=SpanContext(), **extra)
                        settle(c, 30)
                        out = ("error", None)
                    else:
                        kw = dict(callback=got.append) if mode == "callback" else {}
                        f = c.invoke_async("svc", "m", content, spanctx=SpanContext(), **kw, **extra)
                        if not R.check(done([f], 3), "hang", "a call that cannot be sent (%s) does not end" % nm, inp):
                            continue
                        out = outcome(f)
                except BaseException as e:
                    out = ("error", e)
                if nm == "dial then fine" and out == ("ok", b"fine"):
                    pass
                else:
                    R.check(out[0] == "error", "sent-ok", "a call that cannot be sent (%s) gave the normal result %r" % (nm, out[1]), inp)
                    R.check(not (mode == "sync" and isinstance(out[1], TIMEOUTS) and nm != "dial"), "send-timeout", "a call that cannot be sent (%s) only ended with its timeout" % nm, inp)
                R.check(not got or nm == "dial then fine", "callback", "callback got %r for a call that could not be sent" % got, inp)
                clean(R, c, "a call that cannot be sent (%s, %s)" % inp, inp)


def timeouts(R):
    r = R.rng
    for ms in (30, 100, 250, 60.0, 80.5, 1):
        R.case("timeout", ms)
        with Net() as net:
            c = setup()
            t0 = time.time()
            try:
                out = c.invoke_sync("svc", "m", b"q", spanctx=SpanContext(), timeout_ms=ms)
                R.fail("no-timeout", "a call without response returned %r" % (out,), ms)
            except BaseException as e:
                R.check(isinstance(e, TIMEOUTS), "no-timeout", "a call without response ended with %r" % e, ms)
            dt = time.time() - t0
            R.check(dt < ms / 1000 + 0.8, "wait", "a call with a timeout of %r ms waited %.3f s" % (ms, dt), ms)
            R.check(dt > ms / 1000 * 0.8 - 0.005, "wait", "a call with a timeout of %r ms only waited %.3f s" % (ms, dt), ms)
            if wait_until(lambda: net.frames, 1):
                conn, f = net.frames[0]
                R.check(f.timeout == int(ms), "wire-timeout", "the request carries timeout %d" % f.timeout, ms)
                # the response arrives late
                conn.feed(enc_resp(f.request_id, b"", b"late"))
                clean(R, c, "a response that came after the timeout", ms)
    for ms in (0, 0.4, 0.0, -3):
        R.case("timeout", ms)
        with Net() as net:
            c = setup()
            out = []

            def call():
                try:
                    out.append(c.invoke_sync("svc", "m", b"q", spanctx=SpanContext(), timeout_ms=ms))
                except BaseException as e:
                    out.append(e)
            th = threading.Thread(target=call, daemon=True)
            th.start()
            th.join(1.5)
            R.check(out and isinstance(out[0], TIMEOUTS), "wait", "a call with a timeout of %r ms: %s" % (ms, out or "still waiting after 1.5 s"), ms)
            if wait_until(lambda: net.frames, 1):
                conn, f = net.frames[0]
                R.check(f.timeout <= 0, "wire-timeout", "the request carries timeout %d" % f.timeout, ms)
                conn.feed(enc_resp(f.request_id, b"", b"late"))
    for ms in (1, 5000, 2 ** 31 - 1, 700.0, 1500, None):
        for api in ("sync", "async", "callback"):
            if ms is None and api == "sync":
                continue
            R.case("wire", ms, api)
            with Net() as net:
                c = setup()
                net.on_frame = lambda conn, f: conn.feed(enc_resp(f.request_id, b"", b"ok"))
                kw = {} if ms is None else dict(timeout_ms=ms)
                try:
                    if api == "sync":
                        c.invoke_sync("svc", "m", b"q", spanctx=SpanContext(), **kw)
                    else:
                        done([c.invoke_async("svc", "m", b"q", spanctx=SpanContext(), **(dict(kw, callback=lambda x: None) if api == "callback" else kw))])
                except BaseException as e:
                    if ms != 1:
                        R.fail("error", repr(e), (ms, api))
                wait_until(lambda: net.frames, 1)
                if net.frames:
                    t = net.frames[0][1].timeout
                    R.check(t == (int(ms) if ms else -1) or (ms is None and t <= 0), "wire-timeout", "the request carries timeout %d instead of %r" % (t, ms), (ms, api))


def oneway(R):
    for k in range(3):
        R.case("oneway", k)
        with Net() as net:
            c = setup()
            for _ in range(k + 1):
                c.invoke_oneway("svc", "m", b"q", spanctx=SpanContext())
            wait_until(lambda: len(net.frames) == k + 1, 2)
            clean(R, c, "a one-way call", k)
            if net.conns:       # an answer all the same
                for conn, f in net.frames:
                    conn.feed(enc_resp(f.request_id, b"", b"?"))
                settle(c, 20)
                clean(R, c, "an answered one-way call", k)


def mixed(R, i):
    """many calls at once with different fates"""
    r = R.rng
    with Net() as net:
        c = setup()
        fate = {}
        R.case("mixed", i)

        def on_frame(conn, f):
            st = r.choice([0, 0, 1, 3, 7, 6])
            fate[f.content] = st
            conn.feed(enc_resp(f.request_id, b"", b"r" + f.content, status=st))
        net.on_frame = on_frame
        cnt = [0]

        def on_drain(conn):
            cnt[0] += 1
            return ConnectionResetError("x") if r.random() < .05 else None
        net.on_drain = on_drain
        got = []
        calls = []
        for j in range(12):
            calls.append(c.invoke_async("svc", "m", b"%d" % j, spanctx=SpanContext(), callback=lambda x, j=j: got.append((j, x))))
        done(calls, 1.0)
        for j, f in enumerate(calls):
            if not f.done():
                continue        # its response was lost with the connection
            kind, v = outcome(f)
            st = fate.get(b"%d" % j)
            if kind == "ok":
                R.check(st == 0 and v == b"r%d" % j, "status-ignored", "call %d answered with status %r returned %r" % (j, st, v), "mixed")
        ok = {j for j, f in enumerate(calls) if f.done() and outcome(f)[0] == "ok"}
        wait_until(lambda: {j for j, x in got} == ok, 1)
        R.check(sorted(got) == sorted((j, b"r%d" % j) for j in ok), "callback", "callbacks got %r, successful calls are %r" % (got, ok), "mixed")
        pending = {j for j, f in enumerate(calls) if not f.done()}
        if not pending:
            clean(R, c, "every call ended", "mixed")


def run(R):
    statuses(R, 0)
    undecodable(R)
    unsendable(R)
    timeouts(R)
    oneway(R)
    for i in range(100 if R.thorough else 20):
        mixed(R, i)
