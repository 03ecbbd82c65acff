"""C14: the blocking server answers each frame correctly and always terminates."""
from srvlib import *
from c10 import BADBLOCKS


def one(port, data, rng, shut=False, pre=0):
    s = dial(port)
    try:
        send_frag(s, data, rng)
        if shut:
            s.shutdown(socket.SHUT_WR)
        buf, eof = recv_until(s, lambda b: False, 4)
        fs, rest = dec_frames(buf, False)
        return fs, rest, eof
    finally:
        s.close()


def run(R):
    r = R.rng
    import socketserver
    socketserver.BaseServer.handle_error = lambda *a: None
    l, port = start(SockListener, [("svc", Svc)] + [("bad" + n, bad(e)) for n, e in EXC.items() if n not in ("exit", "noproc")])
    S = STATUSES
    t_end = time.time() + R.budget * (0.6 if R.thorough else 0.3)
    rid = 0
    while time.time() < t_end and not R.failures:
        rid = r.choice([rid + 1, r.randrange(2 ** 31), 0, 2 ** 31 - 1, 2 ** 30]) % 2 ** 31
        k = r.choice(["echo", "echo", "hb", "noservice", "nomethodname", "oneway", "exc", "nonbytes", "unreg", "nometh", "ctor", "cmd", "cls", "block", "big"])
        c = rand_bytes(r)
        want = "nosuccess"
        if k == "echo":
            f, want = enc_req(rid, anyhdr(r), b"echo:" + c), [(rid, 2, 0, c)]
        elif k == "big":
            c = bytes(r.getrandbits(8) for _ in range(r.choice([65536, 100000])))
            f, want = enc_req(rid, hdr(), b"echo:" + c), [(rid, 2, 0, c)]
        elif k == "hb":
            full = r.random() < .3
            f, want = enc_req(rid, hdr() if full else b"", b"x" if full else b"", cmdcode=0, cls=REQ_CLASS if full else b""), [(rid, 0, 0, b"")]
        elif k == "noservice":
            f, want = enc_req(rid, r.choice([hdr(None), hdr(""), dict(hdr(None), service="")]), b"echo:x"), [(rid, 2, S["CLIENT_SEND_ERROR"], None)]
        elif k == "nomethodname":
            f, want = enc_req(rid, r.choice([hdr(method=None), hdr(method="")]), b"echo:x"), [(rid, 2, S["CLIENT_SEND_ERROR"], None)]
        elif k == "oneway":
            f, want = enc_req(rid, hdr(), r.choice([b"echo:x", b"none", b"raise:value"]), ptype=2), []
        elif k == "exc":
            f = enc_req(rid, hdr(), b"raise:" + r.choice([e for e in EXC if e not in ("exit", "noproc")]).encode())
        elif k == "nonbytes":
            f = enc_req(rid, hdr(), r.choice([b"none", b"str", b"int", b"list"]))
        elif k == "unreg":
            f = enc_req(rid, hdr("nope"), b"echo:x")
        elif k == "nometh":
            f = enc_req(rid, hdr(method="nope"), b"echo:x")
        elif k == "ctor":
            f = enc_req(rid, hdr("bad" + r.choice(["value", "key", "attr", "os"])), b"echo:x")
        elif k == "cmd":
            f = enc_req(rid, hdr(), b"echo:x", cmdcode=r.choice([2, 3, -1]))
        elif k == "cls":
            f = enc_req(rid, hdr(), b"echo:x", cls=r.choice([b"", RESP_CLASS, REQ_CLASS[:-1], REQ_CLASS + b"x"]))
        elif k == "block":
            f = enc_req(rid, r.choice(BADBLOCKS), b"echo:x")
        R.case(k, len(f), want if want == "nosuccess" else [w[1:3] for w in want])
        fs, rest, eof = one(port, f, r)
        inp = dict(kind=k, frame=short(f, 400))
        R.check(eof, "hang", "the server neither answers nor ends the connection within 4 s", inp)
        R.check(not rest, "rest", "incomplete reply %r" % short(rest), inp)
        if want == "nosuccess":
            R.check(not [g for g in fs if g.status == 0] and len(fs) <= 1, "success", "reply %r" % [(g.request_id, g.cmdcode, g.status) for g in fs], inp)
        else:
            got = [(g.request_id, g.cmdcode, g.status) for g in fs]
            if R.check(got == [w[:3] for w in want], "reply", "replies %r instead of %r" % (got, [w[:3] for w in want]), inp):
                for g, w in zip(fs, want):
                    if w[3] is not None:
                        R.check(g.content == w[3], "content", "content %r" % short(g.content), inp)
    # premature end at every point
    base = enc_req(77, hdr(), b"echo:abcdef")
    CALLS.take()
    cuts = list(range(0, len(base), 1 if R.thorough else 5)) + [21, 22, 23, len(base) - 1]
    for cut in cuts:
        R.case("cut", cut)
        t0 = time.time()
        fs, rest, eof = one(port, base[:cut], r, shut=True)
        inp = dict(frame=short(base, 200), cut_at=cut)
        R.check(eof, "no-end", "handling did not end after the peer closed inside the frame", inp)
        R.check(not fs and not rest, "early-reply", "a reply to an incomplete frame: %r" % (fs,), inp)
        if R.failures:
            break
    R.check(not CALLS.take(), "early-call", "a service was called for an incomplete frame", "cuts")
