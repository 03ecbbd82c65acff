"""C24: publishing; construction without a mesh."""
import requests
from lib import *
from meshfake import Mesh, BASE
from anthunder import Client, SockListener
from anthunder.client.aio_client import AioClient
from anthunder.listener.aio_listener import AioListener


class Svc:
    def __init__(self, ctx, *a, **kw):
        pass


def reset(l):
    l.handler.interface_mapping.clear()


def mk(cls, addr, *a, **kw):
    l = cls(addr, *a, **kw)
    reset(l)
    return l


def close(l):
    s = getattr(l, "server", None)
    if s is not None:
        s.server_close()


def run(R):
    r = R.rng
    ok = lambda *a: (200, {"success": True})
    for i in range(200 if R.thorough else 60):
        cls = r.choice([AioListener, SockListener])
        addr = ("127.0.0.1", free_port() if cls is SockListener else r.choice([12200, 1, 65535, 8080]))
        name = r.choice(["app", "x.y", "\u4e2d"])
        regs = [r.choice(["s1", "s2", "svc:1.0", "svc:2.0", "svc", "svc.a", "SVC", "", "\u4e2d"]) for _ in range(r.choice([0, 1, 2, 5]))]
        inp = (cls.__name__, addr, name, regs)
        R.case(inp)
        with Mesh(ok) as m:
            try:
                l = mk(cls, addr, name, data_center=r.choice(["", "dc"]), zone="z")
            except Exception as e:
                R.fail("construct", repr(e), inp)
                continue
            try:
                m.take()
                for s in regs:
                    l.handler.register_interface(s, Svc, *r.choice([(), (1,)]))
                R.check(m.take() == [], "requests", "registering sent a request", inp)
                l.publish()
                want = [("POST", BASE + "services/publish", dict(serviceName=s, port=str(addr[1]), protocolType="DEFAULT", onlyPublishInCloud=False,
                                                                 providerMetaInfo=dict(protocol="1", version="4.0", serializeType="protobuf", appName=name))) for s in dict.fromkeys(regs)]
                key = lambda x: repr(x)
                got = m.take()
                R.check(sorted(got, key=lambda t: t[2].get("serviceName", "")) == sorted(want, key=lambda t: t[2]["serviceName"]), "publish", "publish sent %r instead of %r" % (got, want), inp)
                l.unpublish()
                want = [("POST", BASE + "services/unpublish", dict(serviceName=s)) for s in dict.fromkeys(regs)]
                got = m.take()
                R.check(sorted(got, key=key) == sorted(want, key=key), "unpublish", "unpublish sent %r instead of %r" % (got, want), inp)
            except Exception as e:
                R.fail("error", repr(e), inp)
            finally:
                reset(l)
                close(l)
    bad = [requests.ConnectionError("x"), OSError("o"), (500, {"success": True}), (200, {"success": False}), (200, b"junk"), (404, b""), requests.Timeout("t"), ValueError("v"), (200, [])]
    for ans in bad:
        for cls in (Client, AioClient, AioListener, SockListener):
            R.case("no mesh", ans, cls.__name__)
            with Mesh(lambda *a: ans) as m:
                try:
                    o = cls(("127.0.0.1", free_port()), "app") if cls in (AioListener, SockListener) else cls("app")
                except BaseException as e:
                    R.fail("construct", "%s: construction failed with %r when the mesh answers %r" % (cls.__name__, e, ans), (cls.__name__, ans))
                    continue
                m.answer = ok
                m.take()
                try:
                    if cls in (AioListener, SockListener):
                        reset(o)
                        o.handler.register_interface("s", Svc)
                        o.publish()
                        o.unpublish()
                        R.check(m.take() == [], "no-mesh", "%s without a mesh sent a request" % cls.__name__, (cls.__name__, ans))
                        reset(o)
                        close(o)
                    else:
                        o.subscribe("s")
                        o.unsubscribe("s")
                        R.check(m.take() == [], "no-mesh", "%s without a mesh sent a request" % cls.__name__, (cls.__name__, ans))
                except Exception as e:
                    R.fail("error", repr(e), (cls.__name__, ans))
