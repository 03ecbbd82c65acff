"""C12: requests reach exactly the registered service method (both servers)."""
from srvlib import *


class A(Svc):
    tag = "A"

    def __init__(self, ctx, *a, **kw):
        CALLS.add("ctor", self.tag, {k: str(v) for k, v in ctx.baggage.items()}, a, kw)

    def m(self, body):
        CALLS.add("call", self.tag, "m", body)
        return b"A.m:" + body

    def m2(self, body):
        CALLS.add("call", self.tag, "m2", body)
        return b"A.m2:" + body


class B(A):
    tag = "B"


def exchange(port, frame, n, wait):
    s = dial(port)
    try:
        s.sendall(frame)
        return replies(s, n, wait, 0.0)
    finally:
        s.close()


def run(R):
    r = R.rng
    for cls in (AioListener, SockListener):
        l, port = start(cls)
        reg = {}
        t_end = time.time() + R.budget * (0.4 if R.thorough else 0.15)
        rid = 0
        CALLS.take()
        while time.time() < t_end and not R.failures:
            rid += 1
            if r.random() < .4 or not reg:
                name = r.choice(["svc", "svc2", "a.b:1.0", "\u4e2d"])
                c = r.choice([A, B])
                a = r.choice([(), (), (1,), ("x", 2), (None,)])
                kw = r.choice([{}, {}, {"k": 1}, {"a": None, "b": 2}])
                l.handler.register_interface(name, c, *a, **kw)
                reg[name] = (c.tag, a, kw)
                if r.random() < .5:
                    R.check(CALLS.take() == [], "register", "registering called the service", name)
            svc = r.choice(list(reg) + ["nope"] + (["svc3"] if r.random() < .3 else []))
            meth = r.choice(["m", "m2", "nope", "m"])
            content = rand_bytes(r)
            bag = {k: rand_text(r, False) for k in r.sample(["k1", "x.y", "uid", "\u00e9"], r.randrange(3))}
            bag.update(sofaRpcId=r.choice(["0", "0.1", "0.1.2"]), sofaTraceId=r.choice(["tid", "\u00e9", "x1"]))
            ow = r.random() < .2
            via = r.choice(["head", "service"])
            h = {"rpc_trace_context." + k: v for k, v in bag.items()}
            h["sofa_head_method_name"] = meth
            if via == "head":
                h["sofa_head_target_service"] = svc
                if r.random() < .5:
                    h["service"] = r.choice(list(reg))
            else:
                h["service"] = svc
            inp = dict(server=cls.__name__, registrations={k: repr(v) for k, v in reg.items()}, header=h, content=short(content, 60), oneway=ow)
            R.case(cls.__name__, svc, meth, len(content), ow, bag)
            known = svc in reg and meth in ("m", "m2")
            answered = not ow and (cls is AioListener or known) or (cls is AioListener and not known)
            fs, rest, eof = exchange(port, enc_req(rid, h, content, ptype=2 if ow else 1), 1 if answered else 0, 4)
            want = []
            if svc in reg:
                tag, a, kw = reg[svc]
                want.append(("ctor", tag, bag, a, kw))
                if known:
                    want.append(("call", tag, meth, content))
            dl = time.time() + (2 if want else 0.05)
            while len(CALLS.log) < len(want) and time.time() < dl:
                time.sleep(0.005)
            if not answered:
                time.sleep(0.01)
            got = CALLS.take()
            if svc in reg and not known:
                # the object may or may not be created before the method is found missing
                want_alt = [[], want]
            else:
                want_alt = [want]
            R.check(got in want_alt, "calls", "calls made %r instead of %r" % (got, want_alt[0]), inp)
            if answered and known:
                R.check(len(fs) == 1 and fs[0].status == 0 and fs[0].content == b"A." + meth.encode() + b":" + content, "reply", "reply %r" % (fs,), inp)
            elif cls is AioListener and not known:
                R.check(len(fs) == 1 and fs[0].status == STATUSES["NO_PROCESSOR"], "noproc", "reply %r instead of NO_PROCESSOR" % (fs,), inp)
            elif cls is SockListener and not known:
                R.check(not [f for f in fs if f.status == 0], "noproc", "success reply for an unregistered interface or method", inp)
    from anthunder.listener.base_listener import NoProcessorError
    from anthunder.listener.sock_listener import SockServiceHandler
    from anthunder.listener.aio_listener import AioThreadpoolRequestHandler
    from mytracer import SpanContext
    for H in (SockServiceHandler, AioThreadpoolRequestHandler):
        h = H()
        h.interface_mapping.clear()
        h.register_interface("svc", A)
        for s_, m_ in (("nope", "m"), ("svc", "nope"), ("", "m")):
            R.case(H.__name__, s_, m_)
            ctx = SpanContext()
            try:
                h.handle_request(ctx, s_, m_, b"x")
                R.fail("noproc", "no error for %r" % ((s_, m_),), H.__name__)
            except NoProcessorError:
                pass
            except Exception as e:
                R.fail("noproc", "%r instead of no-processor error" % e, H.__name__)
            R.check(not [c for c in CALLS.take() if c[0] == "call"], "called", "something was called", (H.__name__, s_, m_))
