"""C22: mesh client."""
import threading
import requests
from lib import *
from meshfake import Mesh, BASE
from anthunder.mesh.mesh_client import MeshClient, ApplicationInfo, PublishServiceRequest, ProviderMetaInfo

FIELDS = ["appName", "dataCenter", "zone", "registryEndPoint", "accessKey", "secretKey", "antShareCloud"]


def app(r):
    d = {f: r.choice(["", None, "v-" + f, "\u4e2d"]) for f in FIELDS[1:-1]}
    d["appName"] = r.choice(["app", "x.y"])
    d["antShareCloud"] = r.choice([True, False])
    return d


def run(R):
    r = R.rng
    bodies = [(200, {"success": True}), (200, {"success": True, "x": [1]}), (200, {"success": False}), (200, {"success": False, "errorMessage": "m"}), (200, {}), (200, {"success": "true"}), (200, {"success": 1}),
              (200, {"success": None}), (200, {"errorMessage": "x"}), (201, {"success": True}), (204, {"success": True}), (302, {"success": True}), (400, {"success": True}), (404, {}), (500, {"success": True}),
              (503, {"success": False}), (199, {"success": True}), (0, {"success": True})]
    odd = [(200, b"not json"), (200, b""), (200, [1, 2]), (200, "text"), (200, None), (200, True), (500, b"<html>"), (200, b"{\"success\": true")]
    errs = [requests.ConnectionError("refused"), requests.Timeout("t"), OSError("o")]
    prov = lambda: ProviderMetaInfo(protocol="1", version="4.0", serializeType="protobuf", appName="app")
    for i in range(3 if R.thorough else 1):
        for ans in bodies + odd + errs:
            for op in ("startup", "subscribe", "unsubscribe", "publish", "unpublish"):
                d = app(r)
                name = r.choice(["svc:1.0", "", "\u4e2d", "a b/c?d=e"])
                inp = (op, ans, d, name)
                R.case(inp)
                with Mesh(lambda *a: ans) as m, R.guard(10, "hang", "mesh call", inp):
                    try:
                        c = MeshClient(ApplicationInfo(**d))
                        if m.take():
                            R.fail("extra", "creating the client sent a request", inp)
                        out, err = None, None
                        try:
                            if op == "startup":
                                out = c.startup()
                                want = ("configs/application", {k: v for k, v in d.items() if v})
                            elif op == "publish":
                                want = ("services/publish", dict(serviceName=name, providerMetaInfo=dict(protocol="1", version="4.0", serializeType="protobuf", appName="app"), port="12200", protocolType="DEFAULT", onlyPublishInCloud=False))
                                out = c.publish(PublishServiceRequest(port="12200", serviceName=name, providerMetaInfo=prov()))
                            else:
                                want = ("services/" + op, dict(serviceName=name))
                                out = getattr(c, op)(name)
                        except Exception as e:
                            err = e
                            if op == "startup":
                                want = ("configs/application", {k: v for k, v in d.items() if v})
                        R.check(m.log == [("POST", BASE + want[0], want[1])], "request", "sent %r, expected one POST to %s with %r" % (m.log, want[0], want[1]), inp)
                        ok = not isinstance(ans, Exception) and ans[0] == 200 and isinstance(ans[1], dict) and ans[1].get("success") is True
                        if ok:
                            R.check(err is None and (out is True if op == "startup" else out == ans[1]), "reply", "accepted, but the call gave %r / %r" % (out, err), inp)
                        else:
                            R.check(err is not None, "error", "refused, but the call returned %r" % (out,), inp)
                            if err is not None and not isinstance(ans, Exception) and isinstance(ans[1], dict):
                                R.check(isinstance(err, (requests.ConnectionError, ConnectionError)), "error-type", "refused with %r instead of a connection error" % err, inp)
                    except Exception as e:
                        R.fail("exception", repr(e), inp)
    # histories of start-ups
    for i in range(200):
        seq = [r.choice([(200, {"success": True}), (200, {"success": False}), (500, {}), requests.ConnectionError("x")]) for _ in range(5)]
        it = list(seq)
        R.case("startups", seq)
        with Mesh(lambda *a: it.pop(0)) as m:
            c = MeshClient(ApplicationInfo("app"))
            started = False
            for _ in range(5):
                n, err = len(m.log), None
                nxt = it[0] if it else None
                try:
                    out = c.startup()
                except Exception as e:
                    err = e
                ok = isinstance(nxt, tuple) and nxt[0] == 200 and nxt[1].get("success") is True
                if started:
                    R.check(len(m.log) == n and err is None, "startup-once", "registered again after a successful start-up", seq)
                else:
                    R.check(len(m.log) == n + 1, "startup-retry", "a start-up after a failed one sent %d requests" % (len(m.log) - n), seq)
                    R.check((err is None) == ok, "startup-result", "start-up gave %r for %r" % (err, nxt), seq)
                    started = ok
    # in threads
    for i in range(6):
        R.case("threads", i)
        first = [i % 2]
        def slow(*a):
            time.sleep(0.01)
            if first[0]:
                first[0] = 0
                return (500, {})
            return (200, {"success": True})
        with Mesh(slow) as m:
            c = MeshClient(ApplicationInfo("app"))
            res = []
            b = threading.Barrier(6)
            def f():
                b.wait()
                try:
                    res.append(c.startup())
                except Exception as e:
                    res.append(e)
            ts = [threading.Thread(target=f, daemon=True) for _ in range(6)]
            [t.start() for t in ts]
            [t.join(10) for t in ts]
            R.check(len(m.log) == 1 + i % 2, "startup-once", "6 threads starting up sent %d registrations (%d of which failed)" % (len(m.log), i % 2), "6 threads")
            R.check(len(res) == 6 and sum(isinstance(x, Exception) for x in res) == i % 2, "startup-result", "results %r" % res, "6 threads")
