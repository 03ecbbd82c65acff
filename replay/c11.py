"""C11: the asyncio server stays in step with the byte stream."""
from srvlib import *
from c10 import BADBLOCKS


def weird(R, rid):
    """a complete frame that is served, rejected or undecodable"""
    r = R.rng
    return r.choice([
        lambda: enc_req(rid, hdr(), b"echo:" + rand_bytes(r)),
        lambda: enc_req(rid, r.choice(BADBLOCKS), rand_bytes(r)),
        lambda: enc_req(rid, r.choice(BADBLOCKS) + enc_map(rand_map(r)), rand_bytes(r)),
        lambda: enc_req(rid, hdr("nope"), rand_bytes(r)),
        lambda: enc_req(rid, hdr(method="nope"), rand_bytes(r)),
        lambda: enc_req(rid, rand_bytes(r), rand_bytes(r), cls=rand_bytes(r), cmdcode=r.choice([0, 1, 2, 9])),
        lambda: enc_req(rid, rand_map(r), rand_bytes(r), cls=r.choice([b"", REQ_CLASS, RESP_CLASS])),
        lambda: enc_req(rid, hdr(), b"raise:value"),
        lambda: enc_req(rid, hdr("badvalue"), b"x"),
        lambda: enc_req(rid, b"", b"", cmdcode=0, cls=b""),
        lambda: enc_req(rid, hdr(), b"echo:z", ptype=r.choice([1, 2, 0, 9]), codec=r.choice([1, 11, 2, 77]), proto=r.choice([1, 2]), ver2=r.choice([1, 0])),
        lambda: enc_req(rid, hdr(), b"none"),
        lambda: enc_req(rid, enc_map({"a" * 60000: "b"}), b"c" * r.choice([0, 70000])),
        lambda: enc_req(rid, hdr(), b"", cls=b"x" * 65535),
    ])()


def run(R):
    r = R.rng
    l, port = start(AioListener, [("svc", Svc), ("badvalue", bad(ValueError))])
    t_end = time.time() + R.budget * (0.6 if R.thorough else 0.25)
    while time.time() < t_end and not R.failures:
        n = r.choice([1, 1, 2, 4])
        frames = [weird(R, 100 + i) for i in range(n)]
        probe = enc_req(7, hdr(), b"echo:probe")
        R.case([f[:60] for f in frames])
        s = dial(port)
        send_frag(s, b"".join(frames) + probe, r)
        buf, eof = recv_until(s, lambda b: any(f.request_id == 7 for f in dec_frames(b, False)[0]), 4)
        fs, rest = dec_frames(buf, False)
        p = [f for f in fs if f.request_id == 7]
        R.check(len(p) == 1 and p[0].status == 0 and p[0].content == b"probe", "step", "the valid frame after %d other frames was not served (replies %r, connection ended: %s)" % (n, [(f.request_id, f.status) for f in fs], eof), [short(f, 200) for f in frames])
        s.close()
    # cut at every point
    full = enc_req(50, hdr(), b"echo:abc")
    cutframes = [enc_req(51, hdr(), b"echo:defghi"), enc_req(51, b"\0\0\0\1a", b"echo:q"), enc_req(51, b"", b"", cmdcode=0, cls=b"")]
    jobs = []
    for cf in cutframes:
        step = 1 if R.thorough else 7
        for cut in sorted(set(list(range(0, len(cf), step)) + [21, 22, 23, 65, 66, 67, len(cf) - 1])):
            if cut < len(cf):
                for pre in (0, 1, 2):
                    jobs.append((cf, cut, pre, r.choice(["shut", "shut", "rst"])))
    r.shuffle(jobs)
    jobs = jobs[:2000 if R.thorough else 160]
    lock = threading.Lock()
    it = iter(jobs)

    def worker():
        while True:
            with lock:
                j = next(it, None)
                if j is None or R.failures or R.left() < 4:
                    return
                R.cases += 1
                R.seen.add(hash((j[0], j[1], j[2], j[3])))
            cf, cut, pre, how = j
            inp = dict(complete_frames_first=pre, frame=short(cf, 150), cut_at=cut, end=how)
            s = dial(port)
            try:
                data = b"".join(enc_req(50 + 100 * i, hdr(), b"echo:abc") for i in range(pre))
                s.sendall(data)
                fs, rest, eof = replies(s, pre, 3, 0) if pre else ([], b"", False)
                first = rest
                s.sendall(cf[:cut])
                if how == "shut":
                    s.shutdown(socket.SHUT_WR)
                    buf, eof = recv_until(s, lambda b: False, 4)
                    more, rest = dec_frames(first + buf, False)
                    ids = [f.request_id for f in fs + more]
                    done = {50 + 100 * i for i in range(pre)}
                    with lock:
                        R.check(eof, "not-closed", "the server did not close a connection that ended inside a frame", inp)
                        for d in done:
                            R.check(ids.count(d) == 1, "second-reply", "request %d, completely received, got %d replies" % (d, ids.count(d)), inp)
                else:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            finally:
                s.close()
    ts = [threading.Thread(target=worker, daemon=True) for _ in range(8)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    # the server still serves
    s = dial(port)
    s.sendall(enc_req(9, hdr(), b"echo:end"))
    fs, rest, eof = replies(s, 1, 4, 0)
    R.check(len(fs) == 1 and fs[0].content == b"end", "alive", "the server no longer serves after broken connections", "after cuts")
    # tasks of ended connections are gone
    if not R.failures:
        s.close()
        deadline = time.time() + 3
        n = None
        while time.time() < deadline:
            n = len([t for t in asyncio.all_tasks(l._loop) if "_handler_connection" in repr(t)])
            if n == 0:
                break
            time.sleep(0.05)
        R.check(n == 0, "still-reading", "%s connection handlers still run after all connections ended" % n, "after cuts")
