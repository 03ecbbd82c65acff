"""what the contracts of the two servers share: arbitrary services behind an arbitrary registry, and the reply a frame asks for"""
import asyncio, concurrent.futures as cf
from .kit import *
from pyvc.models import aio, web

EXTRACT = 'mytracer.tracer:MyTracer.extract'
INJECT = 'mytracer.tracer:MyTracer.inject'
STARTUP = 'anthunder.mesh.mesh_client:MeshClient.startup'
FAILS = [n for n in STATUSES if n != 'SUCCESS']


def fail(rid, status):
    return frame(False, 1, 0, 2, 1, rid, 11, STATUSES[status], RESP_CLASS, b'', b'')


def success(rid, content):
    return frame(False, 1, 0, 2, 1, rid, 11, 0, RESP_CLASS, b'', content)


def heartbeat(rid):
    return frame(False, 1, 0, 0, 1, rid, 11, 0, b'', b'', b'')


class Fresh(Exception):
    """an exception class nobody else knows"""


def kinds(w):
    """one of every kind of exception the code tells apart, and of others"""
    X = w('anthunder.exceptions:ClientError'), w('anthunder.exceptions:ServerError'), w('anthunder.protocol.exceptions:DecodeError')
    return [lambda: ValueError('x'), lambda: Fresh('x'), lambda: KeyError('x'), lambda: AttributeError('x'), lambda: TypeError('x'), lambda: StopIteration('x'),
            lambda: OSError(5, 'x'), lambda: ConnectionResetError('x'), lambda: EOFError('x'), lambda: AssertionError('x'), lambda: SystemExit(1),
            lambda: rt.call(X[0], 'x'), lambda: rt.call(X[1], 'x'), lambda: rt.call(X[2], 'x'),
            lambda: rt.call(w('anthunder.listener.base_listener:NoProcessorError'), 'x')] + timeouts()


def timeouts():
    return [lambda: TimeoutError('x'), lambda: cf.CancelledError('x'), lambda: asyncio.CancelledError('x')]


class Method(rt.Model):
    def __init__(self, svc, name):
        self.svc, self.name = svc, name

    def __call__(self, *a, **k):
        c = sym.C()
        st = self.svc.st
        st.calls.append(('call', self.svc, self.name, a, k))
        st.outcome = st.method_outcome()
        if st.outcome[0] == 'err':
            raise st.outcome[1]
        return st.outcome[1]


class Service(rt.Model):
    def __init__(self, st):
        self.st = st

    def __pyvc_getattr__(self, name, *d):
        c = sym.C()
        st = self.st
        st.asked = name
        if not any(core.zb(veq(name, n)) is not False and c.decide(core.zb(veq(name, n))) for n in st.names):
            st.names.append(name)
            if c.choose(2, 'the service has the method') == 1:
                st.missing = True
        if st.missing:
            if d:
                return d[0]
            raise AttributeError('no such method')
        return Method(self, name)


class Factory(Opaque):
    """whatever was registered for an interface"""
    st = None

    def __call__(self, *a, **k):
        return Factory.st.make(self, a, k)


class Registry(object):
    """an arbitrary registry in a handler, and what happens to it"""
    def __init__(self, c, w, handler, outcomes=None, factories=None):
        self.c, self.w = c, w
        self.calls = []
        self.missing = False
        self.names = []
        self.setup = None
        self.outcome = None
        self.asked = None
        self.outcomes = outcomes
        self.factories = factories if factories is not None else [lambda: ValueError('x'), lambda: TimeoutError('x'), lambda: KeyError('x'), lambda: AttributeError('x'),
                                                                  lambda: asyncio.CancelledError('x'), lambda: SystemExit(1), lambda: EOFError('x'),
                                                                  lambda: ConnectionResetError('x'), lambda: w('anthunder.exceptions:ClientError')('x'),
                                                                  lambda: w('anthunder.protocol.exceptions:DecodeError')('x')]
        Factory.st = self
        m, K, V, n = sym_map('registry', val='val')
        self.K, self.V, self.n = K, V, n
        self.map = PDict()
        self.map._set('segs', [('b', Bulk(n, lambda i: SymStr.atom(K(i)), lambda i: Factory(V(i))))])
        rt.setattr_(handler, 'interface_mapping', self.map)

    def make(self, f, a, k):
        self.calls.append(('make', f, a, k))
        j = self.c.choose(1 + len(self.factories), 'setting up the service')
        if j:
            self.setup = self.factories[j - 1]()
            raise self.setup
        s = Service(self)
        self.calls.append(('made', s))
        return s

    def method_outcome(self):
        c = self.c
        ks = kinds(self.w) if self.outcomes is None else self.outcomes
        j = c.choose(3 + len(ks), 'what the method does')
        if j == 0:
            r = bytestr(c, 'result')
            c.assume(z3.Length(r.term()) < 2 ** 32)
            return 'ok', r
        if j == 1:
            return 'ok', text(c, 'result_text')
        if j == 2:
            return 'ok', None
        return 'err', ks[j - 3]()

    def registered(self, service):
        """the factory registered for the interface, or None"""
        p = PDict._find(self.map, service)
        return None if p is None else self.map._getat(p)

    def executed(self, what, ctx, service, method, content):
        """exactly the registered service method, once, with the content"""
        c = self.c
        f = self.registered(service)
        c.prove(f is not None, what + ': only a registered interface is called')
        ks = [x[0] for x in self.calls]
        c.prove(ks in (['make'], ['make', 'made'], ['make', 'made', 'call']), what + ': one service is created, one method is called', str(ks))
        m = self.calls[0]
        c.prove(core.zb(m[1] == f), what + ': the service comes from the factory registered for the interface')
        c.prove(len(m[2]) == 1 and m[2][0] is ctx and not m[3], what + ": the factory gets the request's trace context", lambda: rep(m))
        if 'made' in ks:
            c.prove(self.asked is not None and core.zb(veq(self.asked, method)), what + ': the method named in the request is looked up')
        if 'call' in ks:
            l = self.calls[2]
            c.prove(l[1] is self.calls[1][1] and core.zb(veq(l[2], method)), what + ': the method named in the request is called')
            c.prove(len(l[3]) == 1 and not l[4] and core.zb(veq(l[3][0], content)), what + ": with exactly the request's content bytes", lambda: rep(l[3]))
        c.prove((self.missing or self.setup is not None) == ('call' not in ks), what + ': an existing method is called')


def tracing(c, w):
    """contracts of the tracer (C20): extraction gives a context or the tracing API's error; injection succeeds"""
    st = {'ctx': None}

    class Ctx(rt.Model):
        pass

    def extract(c, f, tr, fmt, carrier):
        st['carrier'] = carrier
        st['n'] = st.get('n', 0) + 1
        if c.choose(2, 'the headers denote a trace context') == 1:
            st['invalid'] = True
            import opentracing
            raise opentracing.SpanContextCorruptedException('x')
        st['ctx'] = Ctx()
        return st['ctx']

    def inject(c, f, tr, ctx, fmt, carrier):
        return None
    d = c.extra.setdefault('contracts', {})
    d[EXTRACT] = extract
    d[INJECT] = inject
    d[STARTUP] = lambda c, f, mesh: None        # C22: whatever comes of it, a listener is made (C24)
    return st


class Frame(object):
    """an arbitrary frame at p0 of a stream: every byte string long enough is of this form"""
    def __init__(self, c, p0, request=True):
        self.c, self.p0 = c, p0
        last = 4 if request else 2
        names = (('proto', 1), ('ptype', 1), ('cmd', 2), ('ver2', 1), ('rid', 4), ('codec', 1), ('last', last))
        r = SymBytes()
        for n, k in names:
            u = c.fresh(n, I)
            c.assume(z3.And(u >= 0, u < 256 ** k))
            setattr(self, n, z3.If(u >= 256 ** k // 2, u - 256 ** k, u))
            r = SymBytes.lift(r + be(k, u))
        self.rid = mkint(self.rid)
        self.timeout = self.last
        parts = []
        for n, k in (('class', 2), ('block', 2), ('content', 4)):
            t = c.fresh(n, S)
            c.assume(z3.Length(t) < 256 ** k)
            parts.append(SymBytes.atom(t))
            r = SymBytes.lift(r + be(k, z3.Length(t)))
        self.cls, self.block, self.content = parts
        self.hl = z3.Length(self.block.term())
        self.fixed = 22 if request else 20
        self.end = z3.simplify(p0 + self.fixed + sum(z3.Length(p.term()) for p in parts))
        for p in parts:
            r = SymBytes.lift(r + p)
        rest = c.fresh('rest', S)
        self.rope = SymBytes.lift(r + SymBytes.atom(rest))

    def header(self):
        """the map the header block denotes or None when it cannot be decoded (as the contract of from_bytes decided it)"""
        c = self.c
        t = SymBytes.lift(self.block)
        if c.decide(self.hl == 0):
            return PDict()
        key = t.term().sexpr()
        reg = c.extra.get('decoded', {})
        if key not in reg:
            return 'undecided'
        if reg[key] is None:
            return None
        h = PDict()
        h._set('segs', list(reg[key]))
        return h

    def heartbeat(self):
        return self.c.decide(self.cmd == 0, 'heartbeat')

    def lookup(self, h, k):
        p = PDict._find(h, k)
        if p is None:
            return None
        v = h._getat(p)
        return v if self.c.decide(SymStr.lift(v).zlen() > 0, 'empty ' + k) else None

    def service(self, h):
        a = self.lookup(h, 'sofa_head_target_service')
        return a if a is not None else self.lookup(h, 'service')

    def method(self, h):
        return self.lookup(h, 'sofa_head_method_name')
