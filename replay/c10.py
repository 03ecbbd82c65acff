"""C10: the asyncio server answers each request exactly once with the right status (raw sockets, pipelined)."""
from srvlib import *

S = STATUSES
BADBLOCKS = [b"\0", b"\0\0\0\5ab", b"\xff\xff\xff\xfe", b"\0\0\0\1a", b"\0\0\0\2\xff\xfe\0\0\0\0", b"\x7f\xff\xff\xff"]


def gen_case(R, rid):
    """-> (description, frame, expected) ; expected: None (no answer) or (cmdcode, status, content or None)"""
    r = R.rng
    k = r.choice(["echo", "echo", "empty", "exc", "nonbytes", "unregistered", "nomethod", "ctor", "noservice", "nomethodname", "cmd", "cls", "block", "hb", "oneway", "timeout", "slowok", "big", "oddctx"])
    to = r.choice([-1, 0, 20000, 60000, 2 ** 31 - 1, -2 ** 31]) if k not in ("timeout", "slowok") else 0
    if k == "echo":
        c = rand_bytes(r)
        return k, enc_req(rid, anyhdr(r), b"echo:" + c, timeout=to), (2, 0, c)
    if k == "big":
        c = bytes(r.getrandbits(8) for _ in range(r.choice([65536, 70000, 200000])))
        return k, enc_req(rid, hdr(), b"echo:" + c, timeout=to), (2, 0, c)
    if k == "empty":
        return k, enc_req(rid, hdr(), b"echo:", timeout=to), (2, 0, b"")
    if k == "exc":
        e = r.choice(list(EXC))
        return (k, e), enc_req(rid, hdr(), b"raise:" + e.encode(), timeout=to), (2, S["TIMEOUT"] if e in TIMEOUTISH else S["UNKNOWN"], None)
    if k == "nonbytes":
        return k, enc_req(rid, hdr(), r.choice([b"none", b"str", b"int", b"list"]), timeout=to), (2, "fail", None)
    if k == "unregistered":
        return k, enc_req(rid, hdr(r.choice(["nope", "SVC", "svc ", "\u4e2d"])), b"echo:x", timeout=to), (2, S["NO_PROCESSOR"], None)
    if k == "nomethod":
        return k, enc_req(rid, hdr(method=r.choice(["nope", "M", "m ", "\u4e2d", "1"])), b"echo:x", timeout=to), (2, S["NO_PROCESSOR"], None)
    if k == "ctor":
        n = r.choice(["value", "key", "attr", "timeout", "os", "eof", "reset", "acancel", "exit"])
        return (k, n), enc_req(rid, hdr("bad" + n), b"echo:x", timeout=to), (2, S["SERVER_EXCEPTION"], None)
    if k == "noservice":
        h = r.choice([hdr(None), hdr(""), dict(hdr(None), service=""), dict(hdr(""), service="")])
        return (k, h), enc_req(rid, h, b"echo:x", timeout=to), (2, S["CLIENT_SEND_ERROR"], None)
    if k == "nomethodname":
        h = r.choice([hdr(method=None), hdr(method=""), dict(hdr(None, None), service="svc")])
        return (k, h), enc_req(rid, h, b"echo:x", timeout=to), (2, S["CLIENT_SEND_ERROR"], None)
    if k == "cmd":
        c = r.choice([2, 3, -1, 255, 256, 32767, -32768])
        c = c if -32768 <= c <= 32767 else 7
        return (k, c), enc_req(rid, hdr(), b"echo:x", cmdcode=c, timeout=to), (2, S["CLIENT_SEND_ERROR"], None)
    if k == "cls":
        c = r.choice([b"", RESP_CLASS, REQ_CLASS + b"x", REQ_CLASS[:-1], REQ_CLASS.upper(), b"\xff\xfe", b"x" * 300])
        return (k, c), enc_req(rid, hdr(), b"echo:x", cls=c, timeout=to), (2, S["CLIENT_SEND_ERROR"], None)
    if k == "block":
        b = r.choice(BADBLOCKS)
        return (k, b), enc_req(rid, b, b"echo:x", timeout=to), (2, S["CODEC_EXCEPTION"], None)
    if k == "hb":
        full = r.random() < .3
        return k, enc_req(rid, hdr() if full else b"", b"echo:x" if full else b"", cmdcode=0, timeout=to, cls=REQ_CLASS if full else b""), (0, 0, None)
    if k == "oneway":
        c = r.choice([b"echo:x", b"raise:value", b"none", b"raise:timeout", b"raise:acancel", b"sleep:0.05"])
        return (k, c), enc_req(rid, hdr(), c, ptype=2, timeout=to), None
    if k == "timeout":
        return k, enc_req(rid, hdr(), b"sleep:0.7", timeout=r.choice([1, 30, 150])), (2, S["TIMEOUT"], None)
    if k == "slowok":
        return k, enc_req(rid, hdr(), b"sleep:0.12", timeout=r.choice([0, -1, -1000, 60000, 900, 999, 1999])), (2, 0, b"slept")
    if k == "oddctx":
        h = hdr(**{"rpc_trace_context.sofaRpcId": r.choice(["x", "0.1", "", "1.", "a.b"]), "rpc_trace_context.sofaTraceId": r.choice(["t", "", "\u4e2d"])})
        return (k, h), enc_req(rid, h, b"echo:y", timeout=to), (2, "any", None)


def batch(R, port, cases, what):
    r = R.rng
    s = dial(port)
    try:
        data = b"".join(c[1] for c in cases)
        t = threading.Thread(target=lambda: send_frag(s, data, r), daemon=True)
        t.start()
        want = [c for c in cases if c[2] is not None]
        fs, rest, eof = replies(s, len(want), 15.0, 0.2)
        t.join(5)
    finally:
        s.close()
    inp = [(c[0], c[1][:22]) for c in cases]
    by = {}
    for f in fs:
        by.setdefault(f.request_id, []).append(f)
    for i, (desc, frame, exp) in enumerate(cases):
        rid = struct.unpack(">i", frame[5:9])[0]
        got = by.pop(rid, [])
        one = dict(case=desc, frame=frame[:400], position=i)
        if exp is None:
            R.check(not got, "oneway-answered", "one-way request %r was answered: %r" % (desc, got), one)
            continue
        if not R.check(len(got) == 1, "count", "%r got %d responses instead of 1 (connection ended: %s)" % (desc, len(got), eof), one):
            continue
        g = got[0]
        cmd, st, content = exp
        R.check(g.cmdcode == cmd, "cmdcode", "%r answered with command %d instead of %d" % (desc, g.cmdcode, cmd), one)
        R.check(g.ptype == 0, "ptype", "%r answered with type %d" % (desc, g.ptype), one)
        if st == "fail":
            R.check(g.status != 0, "status", "%r answered with success" % (desc,), one)
        elif st != "any":
            R.check(g.status == st, "status", "%r answered with status %d instead of %d" % (desc, g.status, st), one)
        if content is not None:
            R.check(g.content == content, "content", "%r answered with %r" % (desc, short(g.content)), one)
    R.check(not by, "unknown", "responses for ids never sent: %r" % list(by), inp)
    R.check(not rest, "rest", "trailing bytes %r" % short(rest), inp)


def run(R):
    r = R.rng
    regs = [("svc", Svc)] + [("bad" + n, bad(e)) for n, e in EXC.items() if n != "noproc"]
    l, port = start(AioListener, regs)
    CALLS.take()
    # single kinds first: a fault is attributed to one case
    rid = 1
    t_end = time.time() + (R.budget * (0.8 if R.thorough else 0.45))
    n = 0
    while time.time() < t_end and not R.failures:
        cases = []
        for _ in range(1 if n < 30 and n % 2 else r.choice([2, 5, 12, 25])):
            c = gen_case(R, rid)
            rid = r.choice([rid + 1, rid + 1, rid + 7]) if rid < 2 ** 31 - 1000 else 1
            cases.append(c)
            R.case(c[0], c[2] and c[2][:2])
        if r.random() < .1:
            rid = r.choice([2 ** 31 - 3000, 2 ** 20, 5])
        batch(R, port, cases, n)
        n += 1
    # heartbeats touch no service
    CALLS.take()
    s = dial(port)
    s.sendall(enc_req(5, hdr(), b"echo:x", cmdcode=0))
    fs, rest, eof = replies(s, 1, 3, 0.1)
    s.close()
    R.check(len(fs) == 1 and CALLS.take() == [], "hb-service", "a heartbeat touched a service", "heartbeat")
    # a reply blocked on one connection does not hold up others; one slow method does not hold up the next request
    s = dial(port)
    s.sendall(enc_req(1, hdr(), b"sleep:0.6") + enc_req(2, hdr(), b"echo:q"))
    t0 = time.time()
    fs, rest, eof = replies(s, 1, 3, 0)
    R.check(fs and fs[0].request_id == 2, "order", "second request not answered while the first runs: %r" % (fs,), "slow then fast")
    s.close()
