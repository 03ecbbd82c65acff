"""C03: header maps."""
from lib import *
from anthunder.protocol import SofaHeader


def one(R, m):
    R.case(m)
    want = enc_map(m)
    try:
        with R.guard(20, "hang", "header map", m):
            h = SofaHeader(m)
            bs = h.to_bytes()
            n = len(h)
            back = SofaHeader.from_bytes(want)
            bs2 = h.to_bytes()
    except Exception as e:
        R.fail("error", repr(e), m)
        return
    R.eq(bs, want, "to_bytes", "encoded block", m)
    R.eq(bs2, want, "to_bytes", "encoded block (second time)", m)
    R.eq(n, len(want), "len", "reported length", m)
    R.eq(dict(back), m, "from_bytes", "decoded map", m)
    R.check(list(dict(back)) == list(m), "from_bytes", "order of decoded entries", m)


def run(R):
    for h in R.hints:
        if isinstance(h.get("header"), dict):
            one(R, h["header"])
    for m in ({}, {"": ""}, {"a": ""}, {"": "b"}, {"a": "b", "b": "a"}, {"\u4e2d": "\u6587"}, {"a": "\U0001f600" * 300}, {"a": "x" * 65536},
              {"a": "x" * 70000, "b" * 70000: "c"}, {str(i): str(i * i) for i in range(1500)}, {"a": "x" * (2 ** 20)}, {"\x00": "\x00\x00"},
              {"same": "same", "same2": "same"}, {"\u00e9": "\u00e8", "e": "\ufeffbom"}, {"\ufeffk": "v"}, {" a ": " b\n"}, {"a\x00": "\r\n"}):
        one(R, m)
    # one map object used more than once
    h = SofaHeader(a="b")
    h.to_bytes(), len(h)
    h.update({"c": "d" * 5})
    R.case("updated map")
    R.eq(h.to_bytes(), enc_map({"a": "b", "c": "ddddd"}), "to_bytes", "encoding after update", "update after to_bytes")
    R.eq(len(h), len(enc_map({"a": "b", "c": "ddddd"})), "len", "length after update", "update after to_bytes")
    for n in list(range(0, 300)) + [511, 512, 4095, 4096, 32767, 32768, 65535, 65536]:
        one(R, {"k": "v" * n})
        one(R, {"\u00e9" * n: "v", "w": ""})
    for i in range(30000 if R.thorough else 5000):
        one(R, rand_map(R.rng, R.rng.choice([4, 8, 30])))
