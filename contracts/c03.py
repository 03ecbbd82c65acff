"""C03: header maps encode and decode losslessly"""
from .kit import *


@goal('C03', 'SofaHeader.to_bytes: every entry once, in order, length-prefixed')
def to_bytes(c):
    w = World(c)
    H = w('anthunder.protocol:SofaHeader')
    m, K, V, n = encodable_map(c, 'map')
    h = rt.call(H, m)
    o = attempt(h.to_bytes)
    c.prove(o[0] == 'ok', 'encoding any map of text to text succeeds', show(o))
    c.prove(isinstance(o[1], (bytes, SymBytes)), 'the block is bytes')
    eq(c, SymBytes.lift(o[1]), block(K, V, n), 'the block is the concatenation of the length-prefixed entries')
    l = rt.len_(h)
    c.prove(core.zb(l == o[1].len() if isinstance(o[1], Rope) else len(o[1])), 'reported length is the length of the block')


@goal('C03', 'SofaHeader.to_bytes: empty map')
def to_bytes_empty(c):
    w = World(c)
    H = w('anthunder.protocol:SofaHeader')
    h = rt.call(H)
    eq(c, rt.call(h.to_bytes), b'', 'the empty map encodes to the empty block')
    c.prove(rt.len_(h) == 0, 'and has length 0')


@goal('C03', 'lemma: the block of any map is read back as that map', covers=('step',))
def lemma(c):
    """C04 proves from_bytes equal to the denotation of the layout (off, text); here: the layout of block(m) is m, by induction
    on the number of entries.  P(i) is the concatenation of the first i entries; the block is P(i) + entry(i) + rest(i)."""
    from .c04 import Layout
    m, K, V, n = encodable_map(c, 'map')
    base = z3.Const('block', S)
    P = z3.Function('P', I, S)
    rest = z3.Function('rest', I, S)
    blk = SymBytes.atom(base)
    lay = Layout(c, blk)
    i = z3.Const('i', I)
    if c.choose(2, 'induction') == 0:
        # P(0) is empty
        c.assume(P(z3.IntVal(0)) == z3.StringVal(''))
        c.prove(lay.off(z3.IntVal(0)) == z3.Length(P(z3.IntVal(0))), 'base: reading starts at the first entry')
        return
    c.assume(z3.And(0 <= i, i < n))
    c.instantiate(i)
    e = entry(K, V)(i)
    P1 = z3.Concat(P(i), e.term())
    c.assume(base == z3.Concat(P1, rest(i)))
    c.assume(lay.off(2 * i) == z3.Length(P(i)))          # induction hypothesis
    k0 = z3.simplify(2 * i)
    k1 = z3.simplify(2 * i + 1)
    lay.define(k0)
    lay.define(k1)
    c.cover('step')
    k, v = enc(SymStr.atom(K(i))), enc(SymStr.atom(V(i)))
    for kk, t, bs in ((k0, K(i), k), (k1, V(i), v)):
        c.prove(lay.raw(kk) == bs.zlen(), 'the length read is the length written')
        c.assume(lay.raw(kk) == bs.zlen())
        c.prove(lay.text_bytes(kk) == bs.term(), 'the bytes read are the bytes written')
        c.assume(lay.text_bytes(kk) == bs.term())
        c.prove(lay.wellformed(kk), 'each item of the block is well-formed')
        c.prove(lay.text(kk) == t, 'the text read is the text written')
        c.prove(lay.off(kk) < lay.len, 'reading does not stop before the end')
    c.prove(lay.off(z3.simplify(2 * i + 2)) == z3.Length(P1), 'step: the next entry starts where this one ends (the block ends with the last)')
