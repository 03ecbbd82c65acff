"""C01: round trip of requests and responses."""
from lib import *
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.constants import PTYPE, CMDCODE, CODEC, RESPSTATUS
from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.command.fail_response import FailResponse


def fields(p, timeout=True):
    d = dict(proto=int(p.proto), ptype=int(p.ptype), cmdcode=int(p.cmdcode), ver2=int(p.ver2), request_id=p.request_id,
             codec=int(p.codec), header=dict(p.header), content=p.content)
    d["timeout" if timeout else "respstatus"] = int(p.timeout if timeout else p.respstatus)
    return d


def one(R, cls, m, content, kw, req):
    inp = dict(cls=cls.__name__, header=m, content=content, **kw)
    R.case(inp)
    try:
        with R.guard(10, "hang", "round trip", inp):
            p = cls(SofaHeader(m), content, **kw)
            bs = p.to_stream()
            q = cls.from_stream(bs)
    except Exception as e:
        R.fail("roundtrip-error", "%s: %r" % (cls.__name__, e), inp)
        return
    want = dict(proto=1, ptype=int(kw["ptype"]), cmdcode=int(kw["cmdcode"]), ver2=1, request_id=kw["request_id"],
                codec=int(kw.get("codec", 11)), header=dict(m), content=content)
    if req:
        want["timeout"] = kw["timeout"]
    else:
        want["respstatus"] = int(kw["respstatus"])
    got = fields(q, req)
    for k in want:
        R.eq(got[k], want[k], "roundtrip-" + k, "decoded %s" % k, inp)
    R.check(isinstance(q.content, bytes), "roundtrip-content", "decoded content is not bytes", inp)


def refused(R, cls, header, content, kw, why):
    inp = dict(cls=cls.__name__, why=why, content=content, **kw)
    R.case(inp)
    try:
        with R.guard(20, "hang", "refusal", inp):
            p = cls(SofaHeader(header), content, **kw)
            bs = p.to_stream()
    except Exception:
        return
    R.fail("not-refused", "%s: %s was encoded as %s" % (cls.__name__, why, short(bs.hex(), 200)), inp)


def run(R):
    r = R.rng
    req0 = dict(ptype=PTYPE.REQUEST, cmdcode=CMDCODE.REQUEST, request_id=1, timeout=5)
    rsp0 = dict(ptype=PTYPE.RESPONSE, cmdcode=CMDCODE.RESPONSE, request_id=1, respstatus=RESPSTATUS.SUCCESS)
    for h in R.hints:
        try:
            m = dict(h.get("header", {}))
            kw = dict(req0, request_id=int(h.get("request_id", 1)), timeout=int(h.get("timeout", 1)) or 1)
            if abs(kw["request_id"]) < 2 ** 31 and abs(kw["timeout"]) < 2 ** 31:
                one(R, BoltRequest, m, bytes.fromhex(h.get("content", "")), kw, True)
        except (ValueError, TypeError):
            pass
    for v in (2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, None, "1", 1.5):
        refused(R, BoltRequest, {}, b"x", dict(req0, request_id=v), "request id %r" % (v,))
        refused(R, BoltResponse, {}, b"x", dict(rsp0, request_id=v), "request id %r" % (v,))
        if v not in (None, 1.5):
            refused(R, BoltRequest, {}, b"x", dict(req0, timeout=v), "timeout %r" % (v,))
    for v in ("text", None, 5, bytearray(b"ab"), [1], memoryview(b"abc"), ("a",)):
        refused(R, BoltRequest, {}, v, req0, "content %s" % type(v).__name__)
        refused(R, BoltResponse, {}, v, rsp0, "content %s" % type(v).__name__)
        def rt(c, v=v):
            return BoltResponse.response_to(v, request_id=3).to_stream()
        R.case("response_to", type(v).__name__)
        try:
            bs = rt(v)
            R.fail("not-refused", "response_to content %s was encoded" % type(v).__name__, repr(v))
        except Exception:
            pass
    for m in ({"a": "v" * 65536}, {"k" * 65529: ""}, {"k%d" % i: "v" * 1000 for i in range(70)}, {"a": "\ud800"}, {"a": None}, {"a": 5}, {5: "a"}, {"a": b"b"}):
        refused(R, BoltRequest, m, b"x", req0, "header map %s" % short(m, 60))
        refused(R, BoltResponse, m, b"x", rsp0, "header map %s" % short(m, 60))
    for k, bad in (("proto", 0), ("proto", 2), ("ptype", 3), ("ptype", None), ("cmdcode", 3), ("cmdcode", None), ("ver2", 0), ("ver2", 2), ("codec", 0), ("codec", 12)):
        refused(R, BoltRequest, {}, b"x", dict(req0, **{k: bad}), "%s=%r" % (k, bad))
        refused(R, BoltResponse, {}, b"x", dict(rsp0, **{k: bad}), "%s=%r" % (k, bad))
    for bad in (10, 11, 15, 19, -1, 256, 65536):
        refused(R, BoltResponse, {}, b"x", dict(rsp0, respstatus=bad), "status %r" % bad)
    # largest header block, big contents
    for n in (65535 - 8, 32768, 65535 - 9):
        one(R, BoltRequest, {"": "v" * n}, b"", req0, True)
        one(R, BoltResponse, {"k" * n: ""}, b"c", rsp0, False)
    for n in (65535, 65536, 65537, 70000, 2 ** 20, 2 ** 24 + 1):
        one(R, BoltRequest, {"a": "b"}, b"\x01" * n, req0, True)
        one(R, BoltResponse, {}, b"\x02" * n, rsp0, False)
    for mk, args in ((FailResponse.response_to, None),):
        for st in RESPSTATUS:
            for rid in (0, 1, -5, 2 ** 31 - 1, -2 ** 31):
                R.case("fail", rid, st)
                try:
                    q = BoltResponse.from_stream(FailResponse.response_to(rid, st).to_stream())
                    R.check(q.request_id == rid and q.respstatus == st and q.content == b"", "fail-response", "failure reply does not round trip", (rid, st))
                except Exception as e:
                    R.fail("fail-response", repr(e), (rid, st))
    n = 20000 if R.thorough else 4000
    for i in range(n):
        m, c = rand_map(r), rand_bytes(r)
        if len(enc_map(m)) > 65535:
            continue
        if i % 2:
            one(R, BoltRequest, m, c, dict(ptype=r.choice(list(PTYPE)), cmdcode=r.choice(list(CMDCODE)), codec=r.choice(list(CODEC)),
                                           request_id=rand_i32(r), timeout=rand_i32(r)), True)
        else:
            one(R, BoltResponse, m, c, dict(ptype=r.choice(list(PTYPE)), cmdcode=r.choice(list(CMDCODE)), codec=r.choice(list(CODEC)),
                                            request_id=rand_i32(r), respstatus=r.choice(list(RESPSTATUS))), False)
        if i % 7 == 0:
            t = r.choice([None, -1, 1, 100, 2 ** 31 - 1, 1500.0])
            R.case("new_request", m, c, t)
            try:
                p = BoltRequest.new_request(SofaHeader(m), c, timeout_ms=t)
                q = BoltRequest.from_stream(p.to_stream())
                R.check(q.timeout == int(t or -1) and q.content == c and dict(q.header) == m and q.request_id == p.request_id, "new_request", "new_request does not round trip", (m, c, t))
            except Exception as e:
                R.fail("new_request", repr(e), (m, c, t))
