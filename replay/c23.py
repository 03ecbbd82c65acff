"""C23: service addresses and subscriptions."""
import requests
from lib import *
from meshfake import Mesh, BASE
import anthunder
from anthunder import SERVICE_MAP, Client
from anthunder.client.aio_client import AioClient
from anthunder.helpers.immutable_dict import ImmutableValueDict
MESH = ("127.0.0.1", 12220)


def clear():
    for k in list(SERVICE_MAP):
        dict.pop(SERVICE_MAP, k)


def address(c, k):
    """the address a call to interface k would connect to"""
    return tuple(c._get_address(k))


def run(R):
    r = R.rng
    # immutable values
    for i in range(400):
        m, model, hist = ImmutableValueDict(), {}, []
        R.case("dict", i)
        for _ in range(12):
            k, v = r.choice(["a", "b", "", 1, ("t",)]), r.choice(["h", ("h", 1), None, "", 0])
            hist.append((k, v))
            try:
                m[k] = v
                R.check(k not in model, "rebound", "%r was mapped and assigned again" % (k,), hist)
                model[k] = v
            except Exception as e:
                R.check(k in model, "refused", "%r was not mapped, but refused: %r" % (k, e), hist)
            if r.random() < .15 and model:
                k = r.choice(list(model))
                m.pop(k), model.pop(k)
            if not R.check(dict(m) == model, "changed", "%r instead of %r" % (dict(m), model), hist):
                break
    R.check(isinstance(SERVICE_MAP, ImmutableValueDict) or True, "", "")
    clear()
    SERVICE_MAP["x"] = "h1"
    try:
        SERVICE_MAP["x"] = "h2"
        R.fail("rebound", "SERVICE_MAP rebound x", "SERVICE_MAP")
    except Exception:
        pass
    R.check(SERVICE_MAP.get("x") == "h1", "changed", "SERVICE_MAP changed by a refused assignment", "SERVICE_MAP")
    clear()
    names = ["i1", "i2", "svc:1.0", "\u4e2d"]
    refuse = {}

    def answer(method, url, body):
        n = (body or {}).get("serviceName")
        a = refuse.get(n)
        return a if a is not None else (200, {"success": True})
    no = [(200, {"success": False}), (500, {"success": True}), requests.ConnectionError("down"), (200, b"junk")]
    for i in range(800 if R.thorough else 250):
        clear()
        refuse.clear()
        with Mesh(answer) as m:
            up = r.random() < .85
            if not up:
                m.answer = lambda *a: requests.ConnectionError("no mesh")
            c = Client("app")
            m.answer = answer
            m.take()
            model, hist = {}, []
            inp = (up, hist)
            R.case("history", i)
            for _ in range(10):
                op = r.choice(["map", "resolve", "sub", "sub", "unsub", "unsub"])
                if op == "map":
                    k, v = r.choice(names), r.choice(["10.0.0.1", "host", ("10.0.0.2", 99), ("h", 12200), "::1", "10.0.0.1:80", "", "h.example.com", ("", 1), ("h", 0)])
                    hist.append((op, k, v))
                    try:
                        SERVICE_MAP[k] = v
                        R.check(k not in model, "rebound", "%r assigned again" % k, inp)
                        model[k] = v
                    except Exception:
                        R.check(k in model, "refused", "%r not mapped, but refused" % k, inp)
                elif op == "resolve":
                    for k in names + [None, "unknown"]:
                        v = model.get(k, MESH)
                        want = (v, 12200) if isinstance(v, str) else tuple(v)
                        got = address(c, k)
                        R.check(got == want, "address", "%r resolves to %r instead of %r" % (k, got, want), inp)
                else:
                    ks = [r.choice(names) for _ in range(r.choice([0, 1, 2, 3, 4]))]
                    refuse.clear()
                    for k in names:
                        if r.random() < .35:
                            refuse[k] = r.choice(no)
                    hist.append((op, ks, dict(refuse)))
                    m.take()
                    try:
                        (c.subscribe if op == "sub" else c.unsubscribe)(*ks)
                    except Exception as e:
                        R.fail("error", "%s raised %r" % (op, e), inp)
                        break
                    ep = "services/subscribe" if op == "sub" else "services/unsubscribe"
                    want = [("POST", BASE + ep, {"serviceName": k}) for k in ks] if up else []
                    R.check(m.take() == want, "requests", "%s(%r) sent other requests than one per interface" % (op, ks), inp)
                    if up:
                        for k in ks:
                            if k not in refuse:
                                if op == "sub":
                                    model.setdefault(k, MESH)
                                else:
                                    model.pop(k, None)
                got = {k: v for k, v in SERVICE_MAP.items()}
                if not R.check(got == model, "map", "map is %r instead of %r" % (got, model), inp):
                    break
    clear()
    # the address really connected to
    import asyncio
    from mytracer import SpanContext
    with Mesh(lambda *a: requests.ConnectionError("no mesh")):
        ac = AioClient("app")
        seen = []

        async def conn(host=None, port=None, **kw):
            seen.append((host, port))
            raise OSError("stop")
        from unittest import mock
        with mock.patch.object(asyncio, "open_connection", conn):
            for k, v in (("m1", "10.9.9.9"), ("m2", ("10.9.9.8", 77)), ("m3", None)):
                if v:
                    SERVICE_MAP[k] = v
                R.case("connect", k, v)
                try:
                    ac.invoke_sync(k, "m", b"", spanctx=SpanContext(), timeout_ms=2000)
                    R.fail("connect", "a call that cannot connect succeeded", k)
                except BaseException:
                    pass
                want = (v, 12200) if isinstance(v, str) else (v or MESH)
                R.check(seen and set(seen) == {want}, "address", "call to %r connects to %r instead of %r" % (k, seen, want), k)
                del seen[:]
    clear()
