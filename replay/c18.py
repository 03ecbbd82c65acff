"""C18: socket helpers."""
import select, threading
from unittest import mock
from lib import *
import mysockpool._wait as W
from mysockpool import SocketConnection, wait_for_read, wait_for_write
from mysockpool._wait import EVENT_READ, EVENT_WRITE


class Tiny(socket.socket):
    """a socket which accepts or delivers only a few bytes at a time"""
    lim = None
    calls = 0

    def send(self, data, flags=0):
        self.calls += 1
        d = memoryview(data).cast("B")
        return super().send(d[:self.lim()] if self.lim else d, flags)

    def recv(self, n, *a):
        return super().recv(min(n, self.lim()) if self.lim else n, *a)


def conn_pair(lim=None, sndbuf=None):
    a, b = socket.socketpair()
    if sndbuf:
        a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
    t = Tiny(fileno=a.detach())
    t.lim = lim
    t.setblocking(False)
    c = SocketConnection(SocketConnection.PoolKeyCls(host="127.0.0.1", port=1))
    c.sock.close()
    c.sock = t
    return c, b


def reader(sock, total, delay=0.0):
    out = []

    def f():
        n = 0
        sock.settimeout(20)
        while n < total:
            if delay:
                time.sleep(delay)
            try:
                d = sock.recv(65536)
            except OSError:
                break
            if not d:
                break
            out.append(d)
            n += len(d)
        # anything too much
        sock.settimeout(0.02)
        try:
            out.append(sock.recv(1000))
        except OSError:
            pass
    t = threading.Thread(target=f, daemon=True)
    t.start()
    return t, out


def send_case(R, data, lim, sndbuf, desc, delay=0.0):
    R.case("sendall", desc)
    c, b = conn_pair(lim, sndbuf)
    n = memoryview(data).nbytes
    t, out = reader(b, n, delay)
    with R.guard(30, "hang", "sendall", desc):
        try:
            c.sendall(data)
            t.join(25)
            got = b"".join(out)
            want = bytes(memoryview(data).cast("B")) if n else b""
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                R.fail("sendall", "peer received %d bytes of %d, first difference at %d" % (len(got), len(want), i), desc)
        except Exception as e:
            R.fail("sendall", "raised %r" % e, desc)
    c.close()
    b.close()


def recv_case(R, n, chunks, extra, eof, lim, desc, delay=0.0):
    R.case("recvexactly", desc)
    c, b = conn_pair(lim)
    data = bytes(R.rng.getrandbits(8) for _ in range(min(n, 3000)))
    data = (data * (n // max(1, len(data)) + 1))[:n] if n else b""
    cut = data if not eof else data[:-eof]

    def feed():
        p = 0
        try:
            for k in chunks:
                b.sendall(cut[p:p + k])
                p += k
                if delay:
                    time.sleep(delay)
            b.sendall(cut[p:])
            if not eof:
                b.sendall(extra)
            if eof or not extra:
                b.shutdown(socket.SHUT_WR)
        except OSError:
            pass
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    with R.guard(8, "hang", "recvexactly", desc):
        try:
            got = c.recvexactly(n)
            if eof:
                R.fail("recv-eof", "stream ended %d bytes early, yet %d bytes were returned" % (eof, len(got)), desc)
            else:
                R.check(got == data and isinstance(got, bytes), "recvexactly", "received %d bytes (%s) of %d" % (len(got), "equal" if got == data else "different", n), desc)
                t.join(5)
                if extra:
                    c.sock.lim = None
                    c.sock.setblocking(True)
                    rest, _ = recv_until(c.sock, lambda x: len(x) >= len(extra), 3)
                    R.check(rest == extra, "recv-rest", "the following bytes are %s instead of %s" % (short(rest.hex(), 60), short(extra.hex(), 60)), desc)
        except Exception as e:
            if not eof:
                R.fail("recvexactly", "raised %r" % e, desc)
    c.close()
    b.close()


def waits(R):
    r = R.rng
    pairs = [socket.socketpair() for _ in range(4)]
    A = [p[0] for p in pairs]
    B = [p[1] for p in pairs]
    for s in A:
        s.setblocking(False)
    state = []
    try:
        for i, s in enumerate(A):
            k = r.choice(["quiet", "data", "closed", "full", "full+data"])
            state.append(k)
            if "data" in k:
                B[i].send(b"x")
            if k == "closed":
                B[i].close()
            if "full" in k:
                try:
                    while True:
                        s.send(b"z" * 65536)
                except BlockingIOError:
                    pass
        R.case("wait", state)
        rd = {id(s) for s in select.select(A, [], [], 0)[0]}
        wr = {id(s) for s in select.select([], A, [], 0)[1]}
        for f, want, nm in ((wait_for_read, rd, "read"), (wait_for_write, wr, "write")):
            for form in (list, tuple, lambda x: iter(x)):
                with R.guard(10, "hang", "waiting", (nm, state)):
                    got = f(form(A), 0.0)
                    R.check({id(s) for s in got} == want and len(got) == len(want), "ready", "wait_for_%s reports %r ready, the system %r" % (nm, [A.index(s) for s in got], [A.index(s) for s in A if id(s) in want]), state)
            for i, s in enumerate(A):
                with R.guard(10, "hang", "waiting", (nm, state)):
                    got = f(s, timeout=0.0)
                    R.check((len(got) == 1 and got[0] is s) if id(s) in want else got == [] or not got, "ready", "wait_for_%s reports %r" % (nm, got), (state, i))
        # a selector reporting other events, too
        if hasattr(W, "DefaultSelector"):
            Real = W.DefaultSelector

            class Noisy(Real):
                def select(self, timeout=None):
                    out = []
                    for key in list(self.get_map().values()):
                        other = EVENT_READ if key.events == EVENT_WRITE else EVENT_WRITE
                        ok = id(key.fileobj) in (rd if key.events == EVENT_READ else wr)
                        out.append((key, (key.events if ok else 0) | other))
                    return out
            with mock.patch.object(W, "DefaultSelector", Noisy):
                for f, want, nm in ((wait_for_read, rd, "read"), (wait_for_write, wr, "write")):
                    got = f(list(A), 0.0)
                    R.check({id(s) for s in got} == want, "ready", "wait_for_%s reports a socket that is ready for something else only" % nm, state)
    except Exception as e:
        R.fail("wait-error", repr(e), state)
    finally:
        for s in A + B:
            s.close()


def run(R):
    r = R.rng
    for n in (0, 1, 2, 3, 5, 17, 1000, 4096, 70000):
        data = bytes(i * 7 % 251 for i in range(n))
        for nm, lim in (("all", None), ("1 byte", lambda: 1), ("3 bytes", lambda: 3), ("random", lambda: r.choice([1, 2, 5, 100, 5000])), ("half", lambda: max(1, n // 2)), ("all but one", lambda: max(1, n - 1))):
            if n > 5000 and nm in ("1 byte", "3 bytes"):
                continue
            send_case(R, data, lim, None, (n, nm))
        send_case(R, bytearray(data), lambda: 700, None, (n, "bytearray"))
        send_case(R, memoryview(data), lambda: 700, None, (n, "memoryview"))
    send_case(R, bytes(i % 253 for i in range(3000000)), None, 4096, (3000000, "small send buffer"))
    send_case(R, bytes(i % 253 for i in range(400000)), None, 4096, (400000, "slow reader"), 0.005)
    for n in (0, 1, 2, 4, 20, 21, 999, 5000):
        for chunks in ([], [1], [1, 1, 1], [n // 2], [max(0, n - 1)], [n]):
            for lim in (None, lambda: 1, lambda: r.choice([1, 2, 7])):
                if n > 3000 and lim:
                    continue
                recv_case(R, n, chunks, b"", 0, lim, (n, chunks, "no more bytes"))
                recv_case(R, n, chunks, b"following", 0, lim, (n, chunks, "following bytes"))
        for eof in (1, 2, n):
            if 0 < eof <= n:
                recv_case(R, n, [], b"", eof, None, (n, "ends %d early" % eof))
                recv_case(R, n, [1], b"", eof, lambda: 3, (n, "ends %d early, fragments" % eof))
    recv_case(R, 200000, [10, 70000], b"tail", 0, None, (200000, "large"), 0.01)
    recv_case(R, 300, [10] * 25, b"tail", 0, None, (300, "trickling"), 0.004)
    for _ in range(300 if R.thorough else 60):
        waits(R)
