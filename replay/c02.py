"""C02: exact wire layout."""
from lib import *
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.constants import PTYPE, CMDCODE, CODEC, RESPSTATUS
from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.command.fail_response import FailResponse


def cmp(R, mk, want, inp):
    R.case(inp)
    try:
        with R.guard(10, "hang", "encoding", inp):
            got = mk().to_stream()
    except Exception as e:
        R.fail("encode-error", repr(e), inp)
        return
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        R.fail("layout", "byte %d differs: got %s, expected %s" % (i, short(got.hex(), 300), short(want.hex(), 300)), inp)
    R.check(isinstance(got, bytes), "layout", "not bytes", inp)


def run(R):
    r = R.rng
    for st in RESPSTATUS:
        for rid in (0, 1, -5, 2 ** 31 - 1, -2 ** 31, 0x01020304):
            cmp(R, lambda: FailResponse.response_to(rid, st), enc_resp(rid, status=int(st)), ("FailResponse.response_to", rid, st))
    for rid in INTS32 + [0x01020304]:
        cmp(R, lambda: HeartbeatResponse.response_to(rid), enc_resp(rid, cmdcode=0, cls=b""), ("HeartbeatResponse.response_to", rid))
    for i in range(200):
        p = HeartbeatRequest.new_request()
        got = p.to_stream()
        R.case("heartbeat", p.request_id)
        alts = [enc_req(p.request_id, cmdcode=0, cls=b"", timeout=t) for t in (0, -1)]
        if got not in alts:
            R.fail("layout", "heartbeat request: got %s, expected %s" % (got.hex(), alts[0].hex()), ("HeartbeatRequest", p.request_id))
    n = 20000 if R.thorough else 4000
    for i in range(n):
        m, c = rand_map(r), rand_bytes(r)
        if i == 5:
            c = b"z" * 70000
        if i == 6:
            m = {"": "v" * 65527}
        if len(enc_map(m)) > 65535:
            continue
        rid, to = rand_i32(r), rand_i32(r)
        pt, cc, co, st = r.choice(list(PTYPE)), r.choice(list(CMDCODE)), r.choice(list(CODEC)), r.choice(list(RESPSTATUS))
        if i % 2:
            cmp(R, lambda: BoltRequest(SofaHeader(m), c, ptype=pt, cmdcode=cc, codec=co, request_id=rid, timeout=to),
                enc_req(rid, m, c, int(pt), int(cc), int(co), to), ("BoltRequest", m, c, pt, cc, co, rid, to))
        else:
            cmp(R, lambda: BoltResponse(SofaHeader(m), c, ptype=pt, cmdcode=cc, codec=co, request_id=rid, respstatus=st),
                enc_resp(rid, m, c, int(pt), int(cc), int(co), int(st)), ("BoltResponse", m, c, pt, cc, co, rid, st))
        if i % 3 == 0:
            cmp(R, lambda: BoltResponse.response_to(c, request_id=rid), enc_resp(rid, b"", c), ("BoltResponse.response_to", rid, c))
        if i % 5 == 0:
            t = r.choice([None, -1, 1, 100, 2 ** 31 - 1, 1500.0])
            pt = r.choice([PTYPE.REQUEST, PTYPE.ONEWAY])
            try:
                p = BoltRequest.new_request(SofaHeader(m), c, ptype=pt, timeout_ms=t)
            except Exception as e:
                R.fail("encode-error", repr(e), ("new_request", m, c, pt, t))
                continue
            cmp(R, lambda: p, enc_req(p.request_id, m, c, int(pt), 1, 11, int(t or -1)), ("new_request", m, c, pt, t))
