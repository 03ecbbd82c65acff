"""C01: Bolt messages survive an encode/decode round trip; what does not fit is refused.  C02 shares the encoder goal."""
from .kit import *

FIELDS = ('proto', 'ptype', 'cmdcode', 'ver2', 'request_id', 'codec')


def build(c, w, request):
    """a message from arbitrary values; -> (class, header, content, keyword values)"""
    cls = w('anthunder.protocol:%s' % ('BoltRequest' if request else 'BoltResponse'))
    header_contracts(c)
    h = header_map(c, w)
    content = bytestr(c, 'content')
    kw = {f: integer(c, f) for f in FIELDS}
    last = 'timeout' if request else 'respstatus'
    kw[last] = integer(c, last)
    return cls, h, content, kw, last


def wellformed(c, h, content, kw, last):
    """the values fit the wire format"""
    b = block_of(c, h, may_fail=False)
    fs = [one_of(kw[f], ENUMS[f]) for f in FIELDS if f in ENUMS]
    fs.append(fits(4, kw['request_id']))
    fs.append(fits(4, kw['timeout']) if last == 'timeout' else one_of(kw['respstatus'], ENUMS['respstatus']))
    fs.append(fits(2, SymBytes.lift(b).zlen(), False))
    fs.append(fits(4, content.zlen(), False))
    return z3.And(*fs)


def encode_once(c, request, pid):
    w = World(c)
    cls, h, content, kw, last = build(c, w, request)
    o = attempt(lambda: rt.callm(rt.call(cls, h, content, **kw), 'to_stream'))
    e = c.extra['blocks'].get(id(h.segs))
    if o[0] == 'err':
        c.cover('refused')
        if e is not None and e[1] is not None:
            c.prove(z3.Not(wellformed(c, h, content, kw, last)), 'a message whose values fit is encoded', show(o))
        return None
    c.cover('encoded')
    c.prove(e is not None and e[1] is not None, 'a header that cannot be encoded is refused')
    c.prove(wellformed(c, h, content, kw, last), 'a message whose values do not fit is refused')
    return w, cls, h, content, kw, last, o[1], e[1]


def roundtrip(c, request):
    r = encode_once(c, request, 'C01')
    if r is None:
        return
    w, cls, h, content, kw, last, stream, blk = r
    d = attempt(cls.from_stream, stream)
    c.prove(d[0] == 'ok', 'what was encoded can be decoded', show(d))
    p = d[1]
    c.prove(isinstance(p, cls), 'decoding gives a message of the same kind')
    for f in FIELDS + (last,):
        v = rt.getattr_(p, f)
        c.prove(core.zb(v == kw[f]), 'same %s' % f, show(v))
        if f in ENUMS:
            c.prove(isinstance(v, sym.SymEnum) or isinstance(v, rt.enum.IntEnum), '%s is an enumeration member' % f)
    eq(c, SymBytes.lift(rt.getattr_(p, 'content')), content, 'same content')
    hd = rt.getattr_(p, 'header')
    c.prove(isinstance(hd, w('anthunder.protocol:SofaHeader')), 'the header is a header map')
    c.prove(core.zb(PDict.__eq__(hd, h)), 'same header map')
    c.cover('decoded')


@goal('C01', 'request: encode then decode', covers=('refused', 'encoded', 'decoded'))
def rt_request(c):
    roundtrip(c, True)


@goal('C01', 'response: encode then decode', covers=('refused', 'encoded', 'decoded'))
def rt_response(c):
    roundtrip(c, False)


def refuse(c, request):
    """values of the wrong kind are refused"""
    w = World(c)
    cls, h, content, kw, last = build(c, w, request)
    bad = c.choose(9, 'bad')
    if bad == 0:
        content = text(c, 'content_text')
    elif bad == 1:
        content = None
    elif bad == 2:
        content = rt.SymBuf(bytestr(c, 'content_buffer'))
    elif bad == 3:
        content = integer(c, 'content_int')
    elif bad == 4:
        kw['request_id'] = None
    elif bad == 5:
        kw['request_id'] = text(c, 'rid_text')
    elif bad == 6:
        kw['request_id'] = SymReal(z3.Const(c.name('rid_real'), R))
    elif bad == 7:
        kw[last] = text(c, 'last_text')
        c.assume(z3.Length(kw[last].term()) > 0)
    elif bad == 8:
        content = PList.of([1, 2])
    o = attempt(lambda: rt.callm(rt.call(cls, h, content, **kw), 'to_stream'))
    c.prove(o[0] == 'err', 'a value of the wrong type is refused', 'bad kind %d: %r' % (bad, show(o)))


@goal('C01', 'request: wrong types are refused')
def refuse_request(c):
    refuse(c, True)


@goal('C01', 'response: wrong types are refused')
def refuse_response(c):
    refuse(c, False)
