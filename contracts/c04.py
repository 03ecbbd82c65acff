"""C04: decoding is total: the exact result or the library's decode error.

The layout of a header block b is given by the recursive offsets off(0)=0, off(i+1)=off(i)+4+L(off(i)), L(o) being the
signed 32-bit big-endian number at o, with -1 read as 0.  Item i is well-formed when its length prefix and its text lie inside
b, its length is not below -1, and its text is UTF-8.  The block denotes a map iff off reaches len(b) after an even number of
well-formed items."""
from .kit import *


class Layout:
    """specification of one header block"""
    def __init__(self, c, b):
        self.c = c
        self.b = b
        self.base = b.term()
        self.len = z3.Length(self.base)
        self.off = z3.Function(c.name('off'), I, I)
        core.GLOBAL_UFS.add(self.off.name())
        c.assume(self.off(z3.IntVal(0)) == 0)
        c.assume(z3.And(U_UTF8OK(z3.StringVal('')), U_UTF8DEC(z3.StringVal('')) == z3.StringVal('')))
        self.done = set()
        c.foralls.append(self.at_index)

    def at_index(self, i):
        self.define(i)

    def raw(self, i):
        o = self.off(i)
        u = sym.U_UNBE[4](z3.SubString(self.base, o, z3.IntVal(4)))
        self.c.assume(z3.And(u >= 0, u < 2 ** 32))
        return z3.If(u >= 2 ** 31, u - 2 ** 32, u)

    def L(self, i):
        r = self.raw(i)
        return z3.If(r == -1, z3.IntVal(0), r)

    def define(self, i):
        """definition of off at i+1"""
        k = z3.simplify(i)
        if k.get_id() in self.done:
            return
        self.done.add(k.get_id())
        core._keep.append(k)
        self.c.assume(self.off(z3.simplify(k + 1)) == self.off(k) + 4 + self.L(k))

    def text_bytes(self, i):
        return z3.SubString(self.base, self.off(i) + 4, self.L(i))

    def wellformed(self, i):
        o = self.off(i)
        return z3.And(o + 4 <= self.len, self.raw(i) >= -1, o + 4 + self.L(i) <= self.len, U_UTF8OK(self.text_bytes(i)))

    def text(self, i):
        return U_UTF8DEC(self.text_bytes(i))

    def templates(self, loop):
        out = []
        def mk(n, f):
            def g(env, k):
                self.define(k)
                self.define(z3.simplify(k - 1))
                return f(env[n], self.off(k))
            return g
        for n in sorted(loop.ints):
            out.append(('%s==off(k)' % n, mk(n, lambda x, o: x == o)))
            out.append(('%s==len-off(k)' % n, mk(n, lambda x, o: x == self.len - o)))
        def bounds(env, k):
            self.define(k)
            return z3.And(self.off(k) >= 0, self.off(k) <= self.len)
        out.append(('0<=off(k)<=len', bounds))
        def wf(env, k):
            # item k-1 was accepted only if well-formed
            j = z3.simplify(k - 1)
            self.define(j)
            return z3.Implies(k >= 1, self.wellformed(j))
        out.append(('items accepted are well-formed', wf))
        return out


def decode_errors(w):
    return w('anthunder.protocol.exceptions:DecodeError')


@goal('C04', 'SofaHeader.from_bytes: exact map or DecodeError', covers=('accepted', 'rejected'))
def from_bytes(c):
    w = World(c)
    H = w('anthunder.protocol:SofaHeader')
    DE = decode_errors(w)
    b = bytestr(c, 'block')
    lay = Layout(c, b)
    state = {}

    def head(loop):
        state.setdefault('loop', loop)
        state['k'] = loop.k
    c.extra['loop_templates'] = lay.templates
    c.extra['loop_head'] = lambda loop: state.setdefault('main', loop)

    def back(loop, seg):
        if loop is state.get('main'):
            k = loop.k
            c.prove(z3.And(lay.wellformed(k)), 'an item is accepted only if it is well-formed')
            c.prove(lay.off(z3.simplify(k + 1)) > lay.off(k), 'each iteration consumes input (termination)')
            c.prove(lay.off(z3.simplify(k + 1)) <= lay.len, 'never beyond the end (termination)')
    c.extra['loop_backedge'] = back
    o = attempt(H.from_bytes, b)
    loop = state.get('main')
    k = loop.k if loop is not None else z3.IntVal(0)
    lay.define(k)
    if o[0] == 'err':
        c.prove(isinstance(o[1], DE), 'failure is reported as DecodeError', show(o))
        c.prove(z3.Or(z3.And(lay.off(k) < lay.len, z3.Not(lay.wellformed(k))), z3.And(lay.off(k) == lay.len, k % 2 == 1)),
                'only an ill-formed block is rejected')
        c.cover('rejected')
        return
    c.cover('accepted')
    c.prove(lay.off(k) == lay.len, 'the whole block was read')
    c.prove(k % 2 == 0, 'an even number of texts')
    c.prove(isinstance(o[1], H), 'the result is a header map')
    # the map is the one of the pairs (text 2j, text 2j+1), j < k/2, in order
    half = c.fresh('half', I)
    c.assume(half * 2 == k)
    keyf = lambda j: SymStr.atom(lay.text(z3.simplify(2 * j)))
    valf = lambda j: SymStr.atom(lay.text(z3.simplify(2 * j + 1)))
    check_pairs(c, o[1], half, keyf, valf)


def check_pairs(c, d, n, keyf, valf):
    """the dictionary d is dict([(keyf(j), valf(j)) for j in range(n)])"""
    segs = d.segs
    c.prove(len(segs) <= 1 and all(s[0] == 'b' for s in segs), 'the map is built from the list of pairs', show(d))
    if not segs:
        c.prove(n == 0, 'an empty map only for an empty block')
        return
    bk = segs[0][1]
    c.prove(bk.n == n, 'one entry per pair of texts')
    c.prove(not bk.over and not bk.removed and bk.cond is None, 'no entry is altered or left out')
    j = c.fresh('pair', I)
    c.assume(z3.And(j >= 0, j < n))
    c.instantiate(z3.simplify(2 * j))
    c.instantiate(z3.simplify(2 * j + 1))
    eq(c, bk.keyfn(j), keyf(j), 'keys are the texts at even positions')
    eq(c, bk.valfn(j), valf(j), 'values are the texts at odd positions')


REQ_LAYOUT = (('proto', 1, True), ('ptype', 1, True), ('cmdcode', 2, True), ('ver2', 1, True), ('request_id', 4, True), ('codec', 1, True),
              ('timeout', 4, True), ('class_len', 2, False), ('header_len', 2, False), ('content_len', 4, False))
RESP_LAYOUT = REQ_LAYOUT[:6] + (('respstatus', 2, True),) + REQ_LAYOUT[7:]


def field(c, b, off, k, signed):
    """specification: the k-byte big-endian number at a fixed offset"""
    u = sym.unbe(k, SymBytes((Slc(b.term(), z3.IntVal(off), z3.IntVal(off + k)),)))
    return z3.simplify(z3.If(u >= 256 ** k // 2, u - 256 ** k, u)) if signed else u


def whole_message(c, request):
    w = World(c)
    header_contracts(c)
    cls = w('anthunder.protocol:%s' % ('BoltRequest' if request else 'BoltResponse'))
    DE = decode_errors(w)
    b = bytestr(c, 'stream')
    n = b.zlen()
    size = 22 if request else 20
    o = attempt(cls.from_stream, b)
    if not c.decide(n >= size, 'complete fixed header'):
        isexc(c, o, DE, 'a truncated header is rejected with DecodeError')
        c.cover('short')
        return
    v, off = {}, 0
    for name, k, s in (REQ_LAYOUT if request else RESP_LAYOUT):
        v[name] = field(c, b, off, k, s)
        off += k
    hs = z3.simplify(size + v['class_len'])
    cs = z3.simplify(hs + v['header_len'])
    lens = n == cs + v['content_len']
    enums = z3.And(*[one_of(v[e], ENUMS[e]) for e in ENUMS if e in v])
    reg = c.extra.get('decoded', {})
    if o[0] == 'err':
        c.prove(isinstance(o[1], DE), 'failure is reported as DecodeError', show(o))
        bad_block = any(e is None for e in reg.values())
        if not bad_block:
            c.prove(z3.Not(z3.And(lens, enums)), 'only a message the layout does not denote is rejected', show(o))
        c.cover('rejected')
        return
    c.prove(lens, 'truncated and trailing bytes are rejected')
    c.prove(enums, 'unknown enumeration codes are rejected')
    c.prove(all(e is not None for e in reg.values()), 'a malformed header block is rejected')
    p = o[1]
    c.prove(isinstance(p, cls), 'the result is a message of this kind')
    for f in ('proto', 'ptype', 'cmdcode', 'ver2', 'request_id', 'codec', 'timeout' if request else 'respstatus'):
        c.prove(core.zb(rt.getattr_(p, f) == mkint(v[f])), 'field %s is the number at its place' % f)
    eq(c, SymBytes.lift(rt.getattr_(p, 'content')), SymBytes((Slc(b.term(), cs, z3.simplify(n)),)), 'the content is the last section')
    h = rt.getattr_(p, 'header')
    hb = SymBytes((Slc(b.term(), hs, cs),))
    c.prove(isinstance(h, w('anthunder.protocol:SofaHeader')), 'the header is a header map')
    if not h.segs:
        c.prove(hb.zlen() == 0, 'an empty map only for an empty block')
    else:
        e = c.extra['blocks'].get(id(h.segs))
        c.prove(e is not None, 'the header map is the one decoded')
        eq(c, SymBytes.lift(e[1]), hb, 'the header map is decoded from the header section')
    c.cover('accepted')


@goal('C04', 'BoltRequest.from_stream: exact message or DecodeError', covers=('short', 'rejected', 'accepted'))
def request_message(c):
    whole_message(c, True)


@goal('C04', 'BoltResponse.from_stream: exact message or DecodeError', covers=('short', 'rejected', 'accepted'))
def response_message(c):
    whole_message(c, False)
