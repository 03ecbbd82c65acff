"""shared parts of the contracts: running code of /repo to its outcome, specification functions, preconditions"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
if os.path.dirname(here) not in sys.path:
    sys.path.insert(0, os.path.dirname(here))
import z3
from pyvc import core, rt, sym, containers
from pyvc.core import Internal, Unsupported
from pyvc.sym import (S, I, R, B, SymInt, SymBool, SymReal, SymEnum, SymStr, SymBytes, Rope, Lit, Slc, Cat, mkint, mkbool, zi, be, unbe,
                      U_ENCODABLE, U_UTF8ENC, U_UTF8DEC, U_UTF8OK)
from pyvc.containers import PList, PDict, Opaque, Bulk, sym_map, sym_list, is_symbolic, veq
from pyvc.world import World

GOALS = {}        # property -> list of (goal name, function)


def goal(pid, name, **opts):
    def d(f):
        GOALS.setdefault(pid, []).append((name, f, opts))
        return f
    return d


def attempt(f, *a, **k):
    """run code under verification: ('ok', value) or ('err', exception)"""
    try:
        return 'ok', rt.call(f, *a, **k)
    except Internal:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError, RecursionError)):
            raise
        return 'err', e


def drive(coro):
    """run a coroutine whose awaits never suspend"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise Unsupported('a coroutine suspended in the model')


def attempt_co(f, *a, **k):
    try:
        return 'ok', drive(rt.call(f, *a, **k))
    except Internal:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError, RecursionError)):
            raise
        return 'err', e


def text(c, name):
    return c.track(name, SymStr.atom(z3.Const(c.name(name), S)))


def utext(c, name):
    """text that UTF-8 can encode"""
    t = text(c, name)
    c.assume(U_ENCODABLE(t.term()))
    return t


def bytestr(c, name):
    return c.track(name, SymBytes.atom(z3.Const(c.name(name), S)))


def integer(c, name, lo=None, hi=None):
    v = z3.Const(c.name(name), I)
    if lo is not None:
        c.assume(v >= lo)
    if hi is not None:
        c.assume(v <= hi)
    return c.track(name, mkint(v))


def member(c, cls, name):
    v = z3.Const(c.name(name), I)
    c.assume(z3.Or(*[v == int(m) for m in cls]))
    return c.track(name, SymEnum(cls, v))


def show(o):
    try:
        if isinstance(o, tuple) and len(o) == 2 and o[0] == 'err':
            import traceback
            e = o[1]
            fr = traceback.extract_tb(e.__traceback__)[-1:]
            return 'raised %s%s at %s' % (type(e).__name__, e.args, ['%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in fr])
        return repr(o)
    except BaseException:
        return '<%s>' % type(o).__name__


def rep(x):
    try:
        return repr(x)
    except Internal:
        raise
    except BaseException:
        return '<%s>' % type(x).__name__


MAXI = 2 ** 31 - 1


def enc(t):
    """UTF-8 of a text term, as a rope (specification)"""
    if isinstance(t, str):
        return SymBytes.lift(t.encode())
    r = SymStr.lift(t).encode()
    return SymBytes.lift(r)


def lenpref(t):
    """specification of one text on the wire: 4-byte big-endian length, then the UTF-8 bytes"""
    e = enc(t)
    n = e.zlen()
    return SymBytes.lift(SymBytes.lift(be(4, n)) + e)


def text_ok(c, t, limit=MAXI):
    """precondition for a text to be encoded: UTF-8 can encode it, and its length fits"""
    tt = t.term() if isinstance(t, Rope) else t
    return z3.And(U_ENCODABLE(tt), z3.Length(U_UTF8ENC(tt)) <= limit)


def encodable_map(c, name, limit=MAXI):
    """an arbitrary map from encodable text to encodable text"""
    m, K, V, n = sym_map(name)
    def inst(i):
        c.assume(z3.And(text_ok(c, K(i), limit), text_ok(c, V(i), limit)))
    c.foralls.append(inst)
    c.track(name + '.n', mkint(n))
    return m, K, V, n


def entry(K, V):
    def fn(i):
        C = core.CUR
        return SymBytes.lift(lenpref(SymStr.atom(K(i))) + lenpref(SymStr.atom(V(i))))
    return fn


def block(K, V, n):
    """specification of the header block of a map: all entries, in order"""
    return SymBytes((Cat(entry(K, V), n),))


def eq(c, a, b, name, detail=''):
    r = (a == b)
    c.prove(r, name, detail or '%s == %s' % (rep(a), rep(b)))


def isexc(c, out, classes, name):
    """the outcome is an exception of one of the classes"""
    c.prove(out[0] == 'err' and isinstance(out[1], classes), name, show(out))


# ---------------------------------------------------------------- contracts of SofaHeader (proved by C03, C04) for its callers

TO_BYTES = 'anthunder.protocol._sofa_header:SofaHeader.to_bytes'
FROM_BYTES = 'anthunder.protocol._sofa_header:SofaHeader.from_bytes'


def block_of(c, h, may_fail=True):
    """the block of a header map, as an atom; the same map gives the same atom"""
    reg = c.extra.setdefault('blocks', {})
    if not h.segs:
        return b''
    e = reg.get(id(h.segs))
    if e is None:
        if may_fail and c.choose(2, 'header can be encoded') == 1:
            e = (h.segs, None, h)
        else:
            t = z3.Const(c.name('hdrblock'), S)
            if all(s[0] == 'e' for s in h.segs):
                c.assume(z3.Length(t) >= 8 * len(h.segs))
            elif any(s[0] == 'e' for s in h.segs):
                c.assume(z3.Length(t) >= 8)
            else:
                c.assume(z3.And(*[(z3.Length(t) == 0) == (s[1].n == 0) for s in h.segs]) if len(h.segs) == 1 else z3.Length(t) >= 0)
            e = (h.segs, SymBytes.atom(t), h)
            c.extra.setdefault('blockmaps', {})[t.get_id()] = (t, e)
        reg[id(h.segs)] = e
    return e[1]


def con_to_bytes(c, f, h):
    """requires: a map; ensures: the block of that map (C03), or an error when a text cannot be encoded"""
    b = block_of(c, h)
    if b is None:
        raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
    return b


def con_from_bytes(c, f, cls, b):
    """ensures: the map the block denotes, or DecodeError (C04); the block of a map m denotes m (C03 lemma)"""
    w = c.extra['world']
    DE = w('anthunder.protocol.exceptions:DecodeError')
    if not isinstance(b, (bytes, SymBytes)):
        raise AssertionError('not bytes')
    if isinstance(b, bytes):
        if not b:
            return rt.call(cls)
        raise Unsupported('from_bytes of literal bytes')
    t = b.term()
    m = None
    if len(b.parts) == 1:
        m = c.extra.get('blockmaps', {}).get(t.get_id())
    reg = c.extra.setdefault('decoded', {})
    if m is None:
        key = t.sexpr()
        if key in reg:
            e = reg[key]
        elif not c.decide(z3.Length(t) > 0):
            return rt.call(cls)
        elif c.extra.get('denotes') is not None:
            mm = c.extra['denotes'](c)
            if mm is not None:
                mm = mm.segs
            e = reg[key] = mm
        elif c.choose(2, 'the block denotes a map') == 0:
            mm, K, V, n = sym_map(c.name('decoded'))
            c.assume(n > 0)
            e = reg[key] = mm.segs
        else:
            e = reg[key] = None
        if e is None:
            raise DE('malformed header block')
    else:
        e = m[1][0]
    h = rt.call(cls)
    h._set('segs', [s if s[0] == 'e' else ('b', s[1].clone()) for s in e])
    c.extra.setdefault('blocks', {})[id(h.segs)] = (h.segs, b, h)
    return h


def header_contracts(c):
    d = c.extra.setdefault('contracts', {})
    d[TO_BYTES] = con_to_bytes
    d[FROM_BYTES] = con_from_bytes


def header_map(c, w, name='header'):
    """a SofaHeader with arbitrary text entries"""
    m, K, V, n = sym_map(name)
    c.track(name + '.n', mkint(n))
    return rt.call(w('anthunder.protocol:SofaHeader'), m)


def be_s(k, v):
    """specification: k-byte big-endian two's complement of the z3/py int v"""
    v = zi(v)
    return SymBytes.lift(be(k, z3.simplify(z3.If(v < 0, v + 256 ** k, v))))


def fits(k, v, signed=True):
    v = zi(v)
    return z3.And(v >= -(256 ** k) // 2, v < 256 ** k // 2) if signed else z3.And(v >= 0, v < 256 ** k)


def cat(*parts):
    r = SymBytes()
    for p in parts:
        r = SymBytes.lift(r + SymBytes.lift(p))
    return r


REQ_CLASS = b'com.alipay.sofa.rpc.core.request.SofaRequest'
RESP_CLASS = b'com.alipay.sofa.rpc.core.response.SofaResponse'
STATUSES = dict(SUCCESS=0, ERROR=1, SERVER_EXCEPTION=2, UNKNOWN=3, SERVER_THREADPOOL_BUSY=4, ERROR_COMM=5, NO_PROCESSOR=6, TIMEOUT=7,
                CLIENT_SEND_ERROR=8, CODEC_EXCEPTION=9, CONNECTION_CLOSED=16, SERVER_SERIAL_EXCEPTION=17, SERVER_DESERIAL_EXCEPTION=18)
ENUMS = dict(proto=(1,), ptype=(0, 1, 2), cmdcode=(0, 1, 2), ver2=(1,), codec=(1, 11, 2), respstatus=tuple(STATUSES.values()))


def one_of(v, vals):
    v = zi(v)
    return z3.Or(*[v == x for x in vals])


def frame(request, proto, ptype, cmdcode, ver2, rid, codec, last, cls, hdr, content):
    """specification of one Bolt v1 frame; last = timeout (4 bytes) or status (2 bytes)"""
    cls, hdr, content = SymBytes.lift(cls), SymBytes.lift(hdr), SymBytes.lift(content)
    return cat(be_s(1, proto), be_s(1, ptype), be_s(2, cmdcode), be_s(1, ver2), be_s(4, rid), be_s(1, codec), be_s(4 if request else 2, last),
               be(2, cls.zlen()), be(2, hdr.zlen()), be(4, content.zlen()), cls, hdr, content)
