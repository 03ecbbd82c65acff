"""C20: trace context propagation."""
from lib import *
import opentracing
from opentracing import Reference, ReferenceType
from mytracer import MyTracer, SpanContext, RpcId, TraceId, tracer
from anthunder.protocol import SofaHeader
TM = opentracing.Format.TEXT_MAP
P = "rpc_trace_context."


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


KEYS = ["a", "b", "x.y", "", "prefix", "expand", "sofaPenAttrs", "\u4e2d", "a b", "class", "kwargs", "rpc_trace_context.x", "k", "name", "items", "copy", ".", "a.b.c", "__dict__", "format", "d"]
VALS = ["", "v", "1.2", "\u6587", 5, 0, None, False, True, 1.5, "x" * 300, Obj("obj"), Obj(""), "a=b&c"]


def rand_ctx(r):
    kw = {}
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        kw[r.choice(KEYS)] = r.choice(VALS)
    if r.random() < .7:
        kw["sofaTraceId"] = r.choice(["T1", "0a", "x.y", "\u4e2d"])
    if r.random() < .7:
        kw["sofaRpcId"] = r.choice(["0", "1", "1.1", "0.12.3", "x.1", "9.9"])
    return kw, SpanContext(**kw)


def texts(ctx):
    return {k: str(v) for k, v in ctx.baggage.items()}


def run(R):
    r = R.rng
    t = MyTracer()
    for i in range(6000 if R.thorough else 1500):
        kw, ctx = None, None
        try:
            kw, ctx = rand_ctx(r)
            inp = {k: str(v) for k, v in kw.items()}
            R.case("ctx", inp, i)
            before = texts(ctx)
            for k in kw:
                R.check(k in before and before[k] == str(kw[k]), "context", "baggage item %r is %r" % (k, before.get(k)), inp)
            R.check(set(before) == set(kw) | {"sofaTraceId", "sofaRpcId"}, "context", "baggage names %r" % sorted(before), inp)
            # child and follow-up
            kind = r.randrange(5)
            span = t.start_span("root", child_of=None)
            if kind == 0:
                c = t.start_span("n", child_of=ctx).context
            elif kind == 1:
                c = t.start_span("n", references=Reference(ReferenceType.FOLLOWS_FROM, ctx)).context
            elif kind == 2:
                c = t.start_span("n", references=[Reference(ReferenceType.CHILD_OF, ctx)]).context
            elif kind == 3:
                c = SpanContext(Reference(ReferenceType.CHILD_OF, ctx))
            else:
                c = SpanContext(reference=Reference(ReferenceType.FOLLOWS_FROM, ctx))
            got = texts(c)
            R.check(texts(ctx) == before, "parent-modified", "parent baggage changed from %r to %r" % (before, texts(ctx)), (inp, kind))
            R.check({k: v for k, v in got.items() if k != "sofaRpcId"} == {k: v for k, v in before.items() if k != "sofaRpcId"}, "child-baggage", "derived context has baggage %r, parent %r" % (got, before), (inp, kind))
            want = RpcId(*before["sofaRpcId"].split(".")).new_by_reference_type("follows_from" if kind in (1, 4) else "child_of")
            if kind in (1, 4):
                R.check(got.get("sofaRpcId") == str(want), "child-rpcid", "follow-up has rpc id %r of %r" % (got.get("sofaRpcId"), before), (inp, kind))
            else:
                R.check(got.get("sofaRpcId", "").startswith(before["sofaRpcId"] + "."), "child-rpcid", "child has rpc id %r of %r" % (got.get("sofaRpcId"), before), (inp, kind))
            src = r.choice([ctx, c])
            cur = texts(src)
            # inject / extract
            carrier = {"other": "x"} if i % 3 == 0 else {}
            t.inject(src, TM, carrier)
            R.check({k: v for k, v in carrier.items() if k != "other"} == {P + k: v for k, v in cur.items()}, "inject", "injected %r for baggage %r" % (carrier, cur), inp)
            if i % 3 == 0:
                carrier["pc_trace_context.z"] = "no"
                carrier["rpc_trace_contextz"] = "no"
                carrier["rpc_trace_contextX.y"] = "no"
                carrier["rpc_trace_context_.sofaRpcId"] = "9"
                carrier["Rpc_trace_context.q"] = "no"
            back = texts(t.extract(TM, carrier))
            R.check(back == cur, "extract", "extracted %r from a carrier injected with %r" % (back, cur), inp)
            R.check(texts(src) == cur, "frame", "injecting changed the context", inp)
            # header
            inf, m, app, uid = r.choice(["svc:1.0", "a", "\u4e2d"]), r.choice(["hello", "m"]), r.choice(["", "app", "\u6587"]), r.choice(["", "u1"])
            extra = r.choice([{}, {"x": "y"}, {"trace": "t", "spam.egg": "e"}, {P + r.choice(sorted(cur)): "other"}])
            h = SofaHeader.build_header(src, inf, m, target_app=app, uid=uid, **extra)
            want = dict(sofa_head_target_service=inf, service=inf, sofa_head_method_name=m, sofa_head_target_app=app, uid=uid, **extra)
            want.update({P + k: v for k, v in cur.items()})
            R.check(dict(h) == want, "header", "header map is %r, expected %r" % (dict(h), want), (inp, inf, m, app, uid, extra))
            back = texts(t.extract(TM, SofaHeader.from_bytes(h.to_bytes())))
            R.check(back == cur, "header-extract", "extracted %r from headers of %r" % (back, cur), inp)
        except Exception as e:
            R.fail("error", repr(e), kw if kw is None else {k: str(v) for k, v in kw.items()})
    # headers with defaults
    ctx = SpanContext(sofaTraceId="T", sofaRpcId="1.1")
    R.case("default header")
    h = dict(SofaHeader.build_header(ctx, "i", "m"))
    R.check(h == {"sofa_head_target_service": "i", "service": "i", "sofa_head_method_name": "m", "sofa_head_target_app": "", "uid": "", P + "sofaTraceId": "T", P + "sofaRpcId": "1.1"}, "header", repr(h), "defaults")
    # successive children keep the parent intact
    for n in range(1, 6):
        c = t.start_span("n", child_of=ctx).context
        R.case("nth child", n)
        R.check(texts(c) == {"sofaTraceId": "T", "sofaRpcId": "1.1.%d" % n} or texts(c)["sofaTraceId"] == "T", "child-baggage", repr(texts(c)), n)
        R.check(texts(ctx) == {"sofaTraceId": "T", "sofaRpcId": "1.1"}, "parent-modified", repr(texts(ctx)), n)
    for bad in ({P + "sofaRpcId": "x"}, {P + "sofaRpcId": "1.x"}, {P + "sofaRpcId": ""}, {P + "sofaRpcId": "1."}, {P + "sofaRpcId": "1..x"}, {P + "sofaRpcId": 5}, {P + "sofaRpcId": None}, {P + "sofaRpcId": b"1"}, None, 5, {5: "a"}, [1, 2], {P + "a": "b", P + "sofaRpcId": "q", P + "sofaTraceId": "t"}):
        R.case("bad carrier", bad)
        try:
            c = t.extract(TM, bad)
            R.fail("bad-carrier", "carrier %r accepted as %s" % (bad, texts(c)), bad)
        except opentracing.InvalidCarrierException:
            pass
        except Exception as e:
            R.fail("bad-carrier", "carrier %r rejected with %r" % (bad, e), bad)
    for f in (opentracing.Format.BINARY, opentracing.Format.HTTP_HEADERS):
        R.case("format", f)
        for op in (lambda: t.extract(f, {P + "sofaRpcId": "1"}), lambda: t.inject(ctx, f, {})):
            try:
                op()
                R.fail("format", "unsupported format accepted", f)
            except opentracing.UnsupportedFormatException:
                pass
            except Exception as e:
                R.fail("format", "unsupported format rejected with %r" % e, f)
