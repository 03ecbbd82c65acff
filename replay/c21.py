"""C21: spans and trace ids."""
import time
from unittest import mock
from lib import *
from opentracing import Reference, ReferenceType
import opentracing
from mytracer import MyTracer, SpanContext, RpcId, TraceId, new_span, child_span_of, follows_span_from, MySpan


def recorded(span, v):
    return any(type(x) is type(v) and x == v for x in vars(span).values())


def bag(c):
    return {k: str(v) for k, v in c.baggage.items()}


TAGV = [1, 0, None, "", "x", [1], 1.5, False, True]


def run(R):
    r = R.rng
    t = MyTracer()
    for i in range(3000 if R.thorough else 700):
        name = r.choice(["", "op", "x.y", "\u4e2d", "get"])
        tags = r.choice([None, {}, {r.choice(["a", "b", "", "name", "k.v"]): r.choice(TAGV) for _ in range(r.choice([1, 2, 4]))}])
        st = r.choice([None, 0, 0.0, 1, 1.5, -3, 1e12])
        par = SpanContext(sofaTraceId="T%d" % i, sofaRpcId=r.choice(["1", "1.2", "0.3.4"]), item="v%d" % i)
        pspan = MySpan(t, par)
        kind = r.randrange(8)
        kw, ptx = {}, bag(par)
        if kind == 1:
            kw["child_of"] = par
        elif kind == 2:
            kw["child_of"] = pspan
        elif kind == 3:
            kw["references"] = [Reference(ReferenceType.CHILD_OF, par)]
        elif kind == 4:
            kw["references"] = Reference(ReferenceType.FOLLOWS_FROM, par)
        elif kind == 5:
            kw["references"] = [opentracing.follows_from(par)]
        elif kind == 6:
            kw["references"] = opentracing.child_of(par)
        elif kind == 7:
            kw["references"] = []
        inp = (name, tags, st, kind)
        R.case(inp)
        given = None if tags is None else dict(tags)
        try:
            s = t.start_span(name, tags=tags, start_time=st, **kw)
            R.eq(s.operation_name, name, "name", "operation name", inp)
            R.check(recorded(s, given or {}), "tags", "tags %r not recorded: %r" % (given, getattr(s, "_tags", None)), inp)
            if st is not None:
                R.check(recorded(s, st), "start-time", "start time %r not recorded: %r" % (st, getattr(s, "_start_time", None)), inp)
            b = bag(s.context)
            if kind in (0, 7):
                R.check(b["sofaRpcId"] == "1" and b["sofaTraceId"] != ptx["sofaTraceId"], "context", "fresh span has context %r" % b, inp)
            else:
                rest = {k: v for k, v in ptx.items() if k != "sofaRpcId"}
                R.check({k: v for k, v in b.items() if k != "sofaRpcId"} == rest, "context", "derived span has context %r of %r" % (b, ptx), inp)
                segs, psegs = b["sofaRpcId"].split("."), ptx["sofaRpcId"].split(".")
                if kind in (4, 5):
                    R.check(segs == psegs[:-1] + [str(int(psegs[-1]) + 1)], "context", "follow-up span has %r of %r" % (b, ptx), inp)
                else:
                    R.check(segs[:-1] == psegs, "context", "child span has %r of %r" % (b, ptx), inp)
            R.check(bag(par) == ptx, "frame", "parent changed", inp)
            # scope
            class Boom(Exception):
                pass
            exc = r.choice([None, Boom("b"), KeyboardInterrupt(), StopIteration(), ValueError()])
            calls = []
            real = s.finish
            s.finish = lambda *a, **k: (calls.append(1), real(*a, **k))[1]
            out = None
            try:
                with s as inner:
                    if inner is not s:
                        R.fail("scope", "entering the scope gives %r" % (inner,), inp)
                    if exc:
                        raise exc
            except BaseException as e:
                out = e
            R.check(out is exc, "swallow", "leaving the scope with %r gave %r" % (exc, out), inp)
            R.check(calls or getattr(s, "_finish_time", None) is not None, "finish", "leaving the scope did not finish the span", (inp, repr(exc)))
            del s.finish
            # two spans do not share tags
            s2 = t.start_span("other", tags={"only": i})
            R.check(recorded(s2, {"only": i}) and recorded(s, given or {}), "tags", "spans share their tags", inp)
        except Exception as e:
            R.fail("error", repr(e), inp)
    for i in range(50):
        tags = {"a%d" % j: j for j in range(i % 4)}
        R.case("helpers", i)
        try:
            s = new_span("op%d" % i, **tags)
            c = child_span_of(s, **tags)
            d = child_span_of(s, "named", **tags)
            f = follows_span_from(c, **tags)
            for x, nm in ((s, "op%d" % i), (c, "op%d" % i), (d, "named"), (f, "op%d" % i)):
                R.check(x.operation_name == nm, "name", "operation name %r instead of %r" % (x.operation_name, nm), i)
                R.check(recorded(x, tags), "tags", "tags not recorded", tags)
            T = bag(s.context)["sofaTraceId"]
            R.check(all(bag(x.context)["sofaTraceId"] == T for x in (c, d, f)), "context", "trace id changed", i)
            ids = [bag(x.context)["sofaRpcId"] for x in (c, d, f)]
            R.check(len(set(ids)) == 3 and all(z.startswith("1.") and z.count(".") == 1 for z in ids), "context", "rpc ids %r" % ids, i)
        except Exception as e:
            R.fail("error", repr(e), i)
    for x in ("", "0", "abc", "\u4e2d", "x" * 100, " a "):
        R.case("text", x)
        R.check(str(TraceId(x)) == x, "traceid-text", "trace id of %r prints as %r" % (x, str(TraceId(x))), x)
        R.check(str(SpanContext(sofaTraceId=x).baggage["sofaTraceId"]) == x, "traceid-text", "context trace id", x)
    # frozen clock: 8000 ids per millisecond, over several milliseconds
    ids = set()
    n = 0
    clock = [1600000000.000]
    with mock.patch.object(time, "time", lambda: clock[0]), mock.patch.object(time, "time_ns", lambda: int(clock[0] * 1000) * 10 ** 6):
        for ms in range(8 if R.thorough else 3):
            for _ in range(8000):
                ids.add(str(TraceId()))
                n += 1
            if len(ids) != n:
                R.fail("traceid-unique", "%d trace ids created within the first %d milliseconds (8000 each) are only %d different ones" % (n, ms + 1, len(ids)), "clock fixed at %r" % clock[0])
                break
            clock[0] = round(clock[0] + 0.001, 3)
    R.case("trace ids", n)
