"""C13: the blocking client returns only its own, complete, successful response (scripted raw server)."""
from lib import *
from meshfake import Mesh
import anthunder
from anthunder import Client
from anthunder.exceptions import PyboltError, ServerError
from mytracer import SpanContext
import mysockpool.connection_pool as cp


class Server:
    """accepts connections; each connection reads one request frame, then runs the script"""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(50)
        self.port = self.s.getsockname()[1]
        self.script = None
        self.reqs = []
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            while True:
                buf, eof = recv_until(c, lambda b: dec_frames(b, True)[0], 30)
                fs, rest = dec_frames(buf, True)
                if not fs:
                    break
                self.reqs.append(fs[0])
                if not self.script(c, fs[0]):
                    break
        except OSError:
            pass
        finally:
            c.close()


PUT = []
real_put = cp.ConnectionPool.put_conn


def run(R):
    r = R.rng
    with Mesh(lambda *a: ConnectionError("no mesh")):
        cl = Client("app")

    def put_conn(self, conn, *a, **k):
        if getattr(conn, "_used", False):  # not a fresh one topping up the pool
            PUT.append(conn)
        return real_put(self, conn, *a, **k)
    cp.ConnectionPool.put_conn = put_conn
    real_sendall = cp.ConnectionPool.ConnectionCls.sendall

    def sendall(self, *a, **k):
        self._used = True
        return real_sendall(self, *a, **k)
    cp.ConnectionPool.ConnectionCls.sendall = sendall
    n = [0]

    def call(script, timeout_ms=3000, content=b"q"):
        """-> (kind, value, seconds, server, conns put back)"""
        srv = Server()
        srv.script = script
        n[0] += 1
        name = "c13.%d" % n[0]
        anthunder.SERVICE_MAP[name] = ("127.0.0.1", srv.port)
        t0 = time.time()
        try:
            v = ("ok", cl.invoke_sync(name, "m", content, spanctx=SpanContext(), timeout_ms=timeout_ms))
        except Exception as e:
            v = ("err", e)
        dt = time.time() - t0
        srv.s.close()
        return v[0], v[1], dt, srv

    def frag(c, data, cuts):
        p = 0
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        for k in cuts + [len(data)]:
            c.sendall(data[p:k])
            p = k
            if k < len(data):
                time.sleep(0.005)

    # complete success responses, fragmented
    t_end = time.time() + R.budget * (0.4 if R.thorough else 0.12)
    while time.time() < t_end and not R.failures:
        content = r.choice([b"", rand_bytes(r), b"z" * r.choice([1000, 70000])])
        h = rand_map(r) if r.random() < .5 else {}
        cls = RESP_CLASS
        total = 20 + len(cls) + len(enc_map(h)) + len(content)
        cuts = sorted(set(r.choice([1, 19, 20, 21, total - 1, r.randrange(total)]) for _ in range(r.randrange(4))))
        cuts = [c for c in cuts if 0 < c < total]
        st = r.choice([0, 0, 0] + list(STATUSES.values()))
        wrong = r.random() < .2
        R.case("reply", len(content), cuts, st, wrong, len(h))

        def script(c, f):
            rid = f.request_id
            if wrong:
                rid = r.choice([rid ^ 1, (rid + 1) % 2 ** 31, rid ^ 0x40000000, 0 if rid else 1])
            frag(c, enc_resp(rid, h, content, status=st, cls=cls), cuts)
            return True
        kind, v, dt, srv = call(script)
        inp = dict(status=st, wrong_id=wrong, cuts=cuts, content_len=len(content))
        if st == 0 and not wrong:
            R.check(kind == "ok" and v == content, "content", "%s %s instead of the content" % (kind, short(v)), inp)
        else:
            R.check(kind == "err", "error", "returned %s for a response with %s" % (short(v), "another request id" if wrong else "failure status %d" % st), inp)
        if kind == "ok" and PUT:
            c = PUT[-1]
        R.check(len(srv.reqs) == 1, "sent", "%d requests sent" % len(srv.reqs), inp)
    # undecodable responses
    for hb, st in ((b"\0\0\0\5ab", 0), (b"\0", 0), (b"\xff\xfe", 0), (b"", 99), (b"\0\0\0\1a", 0)):
        R.case("undecodable", hb, st)
        kind, v, dt, srv = call(lambda c, f: c.sendall(enc_resp(f.request_id, hb, b"data", status=st)) or True)
        R.check(kind == "err", "undecodable", "returned %r for an undecodable response" % (v,), (hb, st))
    # premature close at points; server that never answers; trickle
    jobs = []
    base_len = len(enc_resp(1, {"k": "v"}, b"content!"))
    for cut in (range(base_len) if R.thorough else sorted({0, 1, 10, 19, 20, 21, 40, 66, base_len - 9, base_len - 8, base_len - 1})):
        jobs.append(("close", cut))
    jobs += [("silent", None), ("trickle", None), ("partial-silent", 20), ("partial-silent", 7), ("trickle-zero", None), ("rst", 5)]
    lock = threading.Lock()

    def one(j):
        how, arg = j

        def script(c, f):
            data = enc_resp(f.request_id, {"k": "v"}, b"content!")
            if how == "close":
                c.sendall(data[:arg])
                return False
            if how == "rst":
                c.sendall(data[:arg])
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return False
            if how == "partial-silent":
                c.sendall(data[:arg])
                time.sleep(6)
                return False
            if how == "silent":
                time.sleep(6)
                return False
            if how == "trickle":
                for i in range(len(data) - 1):
                    c.sendall(data[i:i + 1])
                    time.sleep(0.15)
                time.sleep(3)
                return False
            if how == "trickle-zero":
                c.sendall(data[:20])
                for i in range(12):
                    time.sleep(0.3)
                    c.sendall(data[20 + i:21 + i])
                time.sleep(3)
                return False
        res = []

        def go():
            res.append(call(script, timeout_ms=500))
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(8)
        with lock:
            R.cases += 1
            R.seen.add(hash(j))
            if not res:
                R.fail("hang", "the call did not end within 8 s although its deadline is 1.5 s", j)
                return
            kind, v, dt, srv = res[0]
            R.check(kind == "err", "incomplete", "returned %r without a complete response" % (v,), j)
            R.check(dt < 1.5 + 1.5, "late", "ended after %.1f s although its deadline is 1.5 s" % dt, j)
            if how in ("close", "rst"):
                R.check(dt < 1.3, "close-late", "ended only %.1f s after the server closed the connection" % dt, j)
    before = list(PUT)
    ts = [threading.Thread(target=one, args=(j,), daemon=True) for j in jobs]
    [t.start() for t in ts]
    [t.join(15) for t in ts]
    R.check(PUT == before, "putback", "a connection with missing bytes was put back into the pool", [j for j in jobs])
    # sending: refused connection
    port = free_port()
    anthunder.SERVICE_MAP["refused"] = ("127.0.0.1", port)
    R.case("refused")
    t0 = time.time()
    res = []

    def go():
        try:
            res.append(("ok", cl.invoke_sync("refused", "m", b"x", spanctx=SpanContext(), timeout_ms=500)))
        except Exception as e:
            res.append(("err", e))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(8)
    R.check(res and res[0][0] == "err", "refused", "call to a refused address: %r" % (res,), "connection refused")
    # a success response to another request must not be returned when two replies arrive
    def two(c, f):
        c.sendall(enc_resp(f.request_id ^ 3, {}, b"WRONG") + enc_resp(f.request_id, {}, b"RIGHT"))
        return True
    R.case("two replies")
    kind, v, dt, srv = call(two, timeout_ms=800)
    R.check(kind == "err" or v == b"RIGHT", "foreign", "returned %r" % (v,), "foreign response first")
    # bytes after the response are no part of it
    for k in (19, 7, 1, 25, 60, 0):
        for content in (b"", b"mine"):
            R.case("trailing", k, content)

            def script(c, f):
                data = enc_resp(f.request_id, {}, content)
                frag(c, data + extra, sorted(x for x in {k, len(data) - 2} if x))
                return True
            extra = enc_resp(5, {}, b"OTHER")
            del PUT[:]
            kind, v, dt, srv = call(script, timeout_ms=800)
            time.sleep(0.02)
            for x in PUT:
                # what came after the response is still there for the pool to notice
                try:
                    rest = x.sock.recv(1000, socket.MSG_PEEK)
                except OSError:
                    rest = b""
                R.check(rest == extra, "overread", "a connection went back into the pool after %d bytes more than the response had been read from it" % (len(extra) - len(rest)), ("bytes after the response", k))
            R.check(kind == "err" or v == content, "trailing", "returned %r instead of %r" % (v, content), ("bytes after the response", k))
    # the waits of a call to a silent server add up to no more than its deadline (the clock moves by what is waited for)
    import selectors
    off = [0.0]
    real_time, real_mono, real_select = time.time, time.monotonic, selectors.DefaultSelector.select
    waits = []
    quiet = threading.Event()

    def select(self, timeout=None):
        if any(k.events & selectors.EVENT_WRITE for k in self.get_map().values()) or timeout == 0:
            waits.append(timeout) if timeout else None
            return real_select(self, 2)
        if timeout is None:
            waits.append(None)
            return real_select(self, 2)
        waits.append(timeout)
        off[0] += max(timeout, 0)
        return []

    def silent(c, f):
        quiet.wait(10)
        return False
    try:
        for t in (1, 999, 1000, 60000, 10 ** 6, 86400000, 0.5, 1500.5, 2 ** 31 - 1):
            R.case("waits", t)
            del waits[:]
            res = []
            srv = Server()
            srv.script = silent
            anthunder.SERVICE_MAP["c13.waits%s" % t] = ("127.0.0.1", srv.port)

            def go():
                try:
                    res.append(("ok", cl.invoke_sync("c13.waits%s" % t, "m", b"x", spanctx=SpanContext(), timeout_ms=t)))
                except Exception as e:
                    res.append(("err", e))
            time.time, time.monotonic = (lambda: real_time() + off[0]), (lambda: real_mono() + off[0])
            selectors.DefaultSelector.select = select
            o0 = off[0]
            th = threading.Thread(target=go, daemon=True)
            th.start()
            end = real_time() + 6
            while th.is_alive() and real_time() < end:
                th.join(0.01)
            selectors.DefaultSelector.select = real_select
            time.time, time.monotonic = real_time, real_mono
            srv.s.close()
            if not R.check(res, "hang", "the call to a silent server did not end", t):
                break
            R.check(res[0][0] == "err", "silent", "returned %r without a response" % (res[0],), t)
            R.check(None not in waits, "unlimited", "waited without a limit", t)
            R.check(off[0] - o0 <= t / 1000 + 1 + 1e-3, "waits", "waits of %r s in all, although the deadline is %r s" % (off[0] - o0, t / 1000 + 1), t)
            R.check(all(w is None or w <= t / 1000 + 1 + 1e-3 for w in waits), "wait", "a wait of %r s, although the deadline is %r s" % (waits, t / 1000 + 1), t)
    finally:
        quiet.set()
        selectors.DefaultSelector.select = real_select
        time.time, time.monotonic = real_time, real_mono
