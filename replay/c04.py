"""C04: decoding arbitrary bytes."""
from lib import *
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.exceptions import DecodeError
from anthunder.exceptions import PyboltError


def block(R, b):
    R.case("block", b)
    want = dec_map(b)
    try:
        with R.guard(10, "hang", "decoding a header block", b.hex()):
            got = SofaHeader.from_bytes(b)
            if want is None:
                R.fail("accepted", "malformed header block decoded to %s" % short(dict(got)), b.hex())
            else:
                R.eq(dict(got), want, "wrong", "decoded block", b.hex())
    except DecodeError as e:
        if want is not None:
            R.fail("rejected", "valid header block rejected: %r" % e, b.hex())
    except Exception as e:
        R.fail("other-error", "raised %r instead of the decode error" % e, b.hex())


def message(R, b, req):
    cls = BoltRequest if req else BoltResponse
    n = 22 if req else 20
    R.case(cls.__name__, b)
    want = None
    fs, rest = dec_frames(b, req)
    if len(fs) == 1 and not rest:
        f = fs[0]
        m = dec_map(f.hdr)
        if m is not None and f.proto == 1 and f.ptype in (0, 1, 2) and f.cmdcode in (0, 1, 2) and f.ver2 == 1 and f.codec in CODECS and \
                (req or f.status in STATUSES.values()):
            want = dict(proto=1, ptype=f.ptype, cmdcode=f.cmdcode, ver2=1, request_id=f.request_id, codec=f.codec, header=m, content=f.content)
            want["timeout" if req else "respstatus"] = f.timeout if req else f.status
    try:
        with R.guard(10, "hang", "decoding a message", b.hex()):
            p = cls.from_stream(b)
            if want is None:
                R.fail("accepted", "malformed message was decoded", (cls.__name__, b.hex()))
                return
            got = dict(proto=int(p.proto), ptype=int(p.ptype), cmdcode=int(p.cmdcode), ver2=int(p.ver2), request_id=p.request_id, codec=int(p.codec),
                       header=dict(p.header), content=p.content)
            got["timeout" if req else "respstatus"] = int(p.timeout if req else p.respstatus)
            R.eq(got, want, "wrong", "decoded message", (cls.__name__, b.hex()))
    except DecodeError as e:
        if want is not None:
            R.fail("rejected", "valid message rejected: %r" % e, (cls.__name__, b.hex()))
    except Exception as e:
        R.fail("other-error", "raised %r instead of the decode error" % e, (cls.__name__, b.hex()))


BADTEXT = [b"\xff", b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80", b"a\x80", b"\xf4\x90\x80\x80"]
LENS = [0, 1, 2, 3, 4, 5, 8, -1, -2, -4, -5, -128, -2 ** 31, 2 ** 31 - 1, 65535, 65536, 2 ** 24, 256]


def rand_block(r):
    out = b""
    for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
        c = r.random()
        t = r.choice(BADTEXT) if c < .08 else rand_text(r, False).encode("utf-8", "surrogatepass")
        n = len(t)
        if r.random() < .1:
            n, t = -1, b""
        elif r.random() < .1:
            n = r.choice(LENS)
        out += struct.pack(">i", n) + t
    if r.random() < .15:
        out += bytes(r.getrandbits(8) for _ in range(r.randrange(1, 6)))
    if r.random() < .1 and out:
        out = out[:r.randrange(len(out))]
    return out


def run(R):
    r = R.rng
    for h in R.hints:
        for k in ("block", "bytes", "stream", "b"):
            if k in h:
                try:
                    b = bytes.fromhex(h[k])
                except (ValueError, TypeError):
                    continue
                block(R, b), message(R, b, True), message(R, b, False)
    block(R, b"")
    P = lambda n: struct.pack(">i", n)
    for t in BADTEXT:
        block(R, P(len(t)) + t + P(1) + b"a")
        block(R, P(1) + b"a" + P(len(t)) + t)
        message(R, enc_req(1, P(1) + b"a" + P(len(t)) + t), True)
        message(R, enc_resp(1, P(1) + b"a" + P(len(t)) + t), False)
    for n in LENS:
        for tail in (b"", b"a", b"abcd", b"abcdefgh", P(1) + b"x", P(-1), P(0)):
            block(R, P(n) + tail)
            block(R, P(1) + b"k" + P(n) + tail)
            block(R, P(n) + tail + P(-1))
            block(R, P(-1) + P(n) + tail)
    for k in range(1, 8):
        block(R, b"\x00" * k)
        block(R, b"\xff" * k)
        block(R, b"\x00\x00\x00\x01a" * k)
    base_q, base_p = enc_req(7, {"a": "b", "c": "d"}, b"body", timeout=9), enc_resp(7, {"a": "b"}, b"body")
    for b, req in ((base_q, True), (base_p, False), (enc_req(1, cls=b""), True), (enc_resp(1, cls=b""), False)):
        for cut in range(len(b) + 1):
            message(R, b[:cut], req)
        for tail in (b"\x00", b"x", b[:5], b):
            message(R, b + tail, req)
        for i in range(min(len(b), 30)):
            for v in (0, 1, 2, 3, 5, 10, 11, 12, 127, 128, 255):
                message(R, b[:i] + bytes([v]) + b[i + 1:], req)
    for kw in (dict(proto=0), dict(proto=2), dict(proto=-1), dict(ptype=3), dict(ptype=-1), dict(cmdcode=3), dict(cmdcode=-1), dict(cmdcode=256), dict(ver2=0),
               dict(ver2=2), dict(codec=0), dict(codec=3), dict(codec=12), dict(codec=-1)):
        message(R, enc_req(1, {}, b"c", **kw), True)
        message(R, enc_resp(1, {}, b"c", **kw), False)
    for st in list(range(-3, 24)) + [255, 256, 32767, -32768]:
        message(R, enc_resp(1, {}, b"", status=st), False)
    for i in range(60000 if R.thorough else 8000):
        block(R, rand_block(r))
        if i % 2:
            blk = enc_map(rand_map(r)) if r.random() < .6 else rand_block(r)
            if len(blk) > 65535:
                continue
            b = enc_req(rand_i32(r), blk, rand_bytes(r, 50), r.randrange(3), r.randrange(3), r.choice(CODECS), rand_i32(r))
            q = enc_resp(rand_i32(r), blk, rand_bytes(r, 50), r.randrange(3), r.randrange(3), r.choice(CODECS), r.choice(list(STATUSES.values())))
            if r.random() < .5:
                def mut(x):
                    x = bytearray(x)
                    for _ in range(r.choice([1, 1, 2])):
                        x[r.randrange(len(x))] = r.choice([0, 1, 2, 255, r.getrandbits(8)])
                    return bytes(x)
                b, q = mut(b), mut(q)
            message(R, b, True)
            message(R, q, False)
