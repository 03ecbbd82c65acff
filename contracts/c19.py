"""C19: RPC ids form a proper call tree."""
from .kit import *


def mixed(c, name):
    """an arbitrary list of numbers and texts (what RpcId accepts)"""
    nm = c.name(name)
    n = integer(c, nm + '.n', 1)
    num = z3.Function(nm + '.isnum', I, B)
    iv = z3.Function(nm + '.int', I, I)
    tv = z3.Function(nm + '.text', I, S)
    for f in (num, iv, tv):
        core.GLOBAL_UFS.add(f.name())
    kinds = {}

    def el(i):
        i = z3.simplify(i)
        if c.decide(num(i), 'segment is a number'):
            return mkint(iv(i))
        return SymStr.atom(tv(i))
    return PList.seg(el, n), zi(n), num, iv, tv


def seg_spec(num, iv, tv, i):
    """(is a number, number, text) of segment i once parsed"""
    isint = z3.Or(num(i), U_INTOK_(tv(i)))
    return isint, z3.If(num(i), iv(i), sym.U_PYINT(tv(i))), tv(i)


def U_INTOK_(t):
    return sym.U_INTOK(t)


def rid_class(w):
    return w('mytracer._rpc_id:RpcId')


def make(c, w, name, must=True):
    l, n, num, iv, tv = mixed(c, name)
    o = attempt(lambda: rt.callx(rid_class(w), (('*', l),), ()))
    return o, n, num, iv, tv


def element(r, i):
    """segment at an in-range index of an RpcId"""
    return rt.to_plist(rt.getattr_(r, 'rpcids')).at(i)


def generic(c, n, name='seg'):
    i = c.fresh(name, I)
    c.assume(z3.And(i >= 0, i < n))
    c.instantiate(i)
    return i


def check_segments(c, r, n, num, iv, tv, what):
    ids = rt.to_plist(rt.getattr_(r, 'rpcids'))
    c.prove(ids.zlen() == n, what + ': as many segments as given')
    i = generic(c, n)
    v = element(r, i)
    isint, x, t = seg_spec(num, iv, tv, i)
    if isinstance(v, (int, SymInt)):
        c.prove(isint, what + ': only numeric segments become numbers')
        c.prove(zi(v) == x, what + ': a numeric segment keeps its number')
    else:
        c.prove(z3.Not(isint), what + ': numeric segments become numbers')
        c.prove(core.zb(v == SymStr.atom(t)), what + ': a text segment is kept')


@goal('C19', 'RpcId: segments as given, the last one a number', covers=('accepted', 'rejected'))
def construct(c):
    w = World(c)
    o, n, num, iv, tv = make(c, w, 'segments')
    last = seg_spec(num, iv, tv, z3.simplify(n - 1))[0]
    if o[0] == 'err':
        c.prove(isinstance(o[1], (TypeError, ValueError)), 'rejected with an error', show(o))
        c.prove(z3.Not(last), 'an id is rejected only if its last segment is not a number', show(o))
        c.cover('rejected')
        return
    c.prove(last, 'an id whose last segment is not a number is rejected')
    c.cover('accepted')
    check_segments(c, o[1], n, num, iv, tv, 'id')


@goal('C19', 'RpcId(): the root id')
def root(c):
    w = World(c)
    o = attempt(rid_class(w))
    c.prove(o[0] == 'ok' and rt.str_(o[1]) == '1', 'the default id is 1', show(o))


@goal('C19', 'RpcId.__eq__: exactly when all segments are equal', covers=('equal', 'different'))
def equality(c):
    w = World(c)
    a, n1, num1, iv1, tv1 = make(c, w, 'a')
    if a[0] == 'err':
        return
    b, n2, num2, iv2, tv2 = make(c, w, 'b')
    if b[0] == 'err':
        return
    loops = []
    c.extra['loop_head'] = loops.append
    o = attempt(lambda: rt.call(rt.TABLE[bool], rt.callm(a[1], '__eq__', b[1])))
    c.prove(o[0] == 'ok', 'ids can be compared', show(o))

    def same(i):
        i1, x1, t1 = seg_spec(num1, iv1, tv1, i)
        i2, x2, t2 = seg_spec(num2, iv2, tv2, i)
        return z3.And(i1 == i2, z3.If(i1, x1 == x2, t1 == t2))
    if c.decide(core.zb(o[1])):
        c.cover('equal')
        c.prove(n1 == n2, 'equal ids have as many segments')
        c.prove(same(generic(c, n1)), 'equal ids agree on every segment')
    else:
        c.cover('different')
        ks = [l.k for l in loops]
        for k in ks:
            c.instantiate(k)
        c.prove(z3.Or(n1 != n2, *[z3.And(k >= 0, k < n1, z3.Not(same(k))) for k in ks]), 'ids that differ nowhere are equal')
    r = attempt(lambda: rt.callm(a[1], '__eq__', None))
    c.prove(r[0] == 'ok' and not c.decide(core.zb(rt.call(rt.TABLE[bool], r[1]))), 'an id differs from anything else')


@goal('C19', 'printing and parsing an id', covers=('parsed',))
def print_parse(c):
    w = World(c)
    a, n, num, iv, tv = make(c, w, 'id')
    if a[0] == 'err':
        return
    nodot = lambda i: z3.Implies(z3.Not(num(i)), z3.Not(z3.Contains(tv(i), z3.StringVal('.'))))
    c.foralls.append(lambda i: c.assume(nodot(i)))
    s = attempt(rt.str_, a[1])
    c.prove(s[0] == 'ok', 'an id prints', show(s))
    parts = attempt(lambda: rt.callm(s[1], 'split', '.'))
    o = attempt(lambda: rt.callx(rid_class(w), (('*', parts[1]),), ()))
    c.prove(o[0] == 'ok', 'a printed id parses', show(o))
    c.cover('parsed')
    ids = rt.to_plist(rt.getattr_(o[1], 'rpcids'))
    c.prove(ids.zlen() == n, 'the parsed id has as many segments')
    check_segments(c, o[1], n, num, iv, tv, 'parsed id')


def ends_with(c, r, n, num, iv, tv, x, what):
    """r's segments are those of the parent followed by the number x"""
    ids = rt.to_plist(rt.getattr_(r, 'rpcids'))
    c.prove(ids.zlen() == n + 1, what + ': one more segment than the parent')
    last = ids.at(n)
    c.prove(core.zb(last == mkint(x)), what + ': the last segment is the next free number', show(last))
    i = generic(c, n)
    v = element(r, i)
    isint, y, t = seg_spec(num, iv, tv, i)
    if isinstance(v, (int, SymInt)):
        c.prove(z3.And(isint, zi(v) == y), what + ": the parent's segments are the prefix")
    else:
        c.prove(z3.And(z3.Not(isint), core.zb(v == SymStr.atom(t))), what + ": the parent's segments are the prefix")


def picker(c):
    return lambda: c.choose(2, 'child or follow-up') == 0


@goal('C19', 'children and follow-ups of children: n-th derived id ends in n', covers=('child', 'follow'))
def family(c):
    w = World(c)
    a, n, num, iv, tv = make(c, w, 'parent')
    if a[0] == 'err':
        return
    p = a[1]
    first = attempt(lambda: rt.callm(p, 'new_by_reference_type', 'child_of'))
    c.prove(first[0] == 'ok', 'a child can be derived', show(first))
    ends_with(c, first[1], n, num, iv, tv, z3.IntVal(1), 'first child')
    m = integer(c, 'earlier', 0)
    spec = rt.SPEC()
    o = attempt(spec.derive_follow, p, first[1], m, picker(c))
    c.prove(o[0] == 'ok', 'any number of ids can be derived', show(o))
    kid = attempt(lambda: rt.callm(p, 'new_by_reference_type', 'child_of')) if c.choose(2, 'next') == 0 else \
        attempt(lambda: rt.callm(first[1], 'new_by_reference_type', 'follows_from'))
    c.prove(kid[0] == 'ok', 'another id can be derived', show(kid))
    ends_with(c, kid[1], n, num, iv, tv, zi(m) + 2, 'id derived after m others')
    c.cover('child')
    sib = attempt(lambda: rt.callm(kid[1], 'new_by_reference_type', 'follows_from'))
    c.prove(sib[0] == 'ok', 'a follow-up of any derived id can be derived', show(sib))
    ends_with(c, sib[1], n, num, iv, tv, zi(m) + 3, 'follow-up of a derived id')
    c.cover('follow')
    check_segments(c, p, n, num, iv, tv, 'the parent is not changed')
    g = attempt(lambda: rt.callm(kid[1], 'new_by_reference_type', 'child_of'))
    c.prove(g[0] == 'ok', 'a derived id has children of its own', show(g))
    gi = rt.to_plist(rt.getattr_(g[1], 'rpcids'))
    c.prove(gi.zlen() == n + 2, 'grandchild: one more segment than its parent')
    c.prove(core.zb(gi.at(z3.simplify(n + 1)) == 1), 'numbering starts again below each id')
    c.prove(core.zb(gi.at(n) == mkint(zi(m) + 2)), 'grandchild: the prefix is its parent')


@goal('C19', 'follow-up of an id without known parent: last number plus one', covers=('followed',))
def orphan_follow(c):
    w = World(c)
    a, n, num, iv, tv = make(c, w, 'id')
    if a[0] == 'err':
        return
    m = integer(c, 'children', 0)
    o = attempt(rt.SPEC().derive, a[1], m, picker(c))
    c.prove(o[0] == 'ok', 'any number of ids can be derived', show(o))
    f = attempt(lambda: rt.callm(a[1], 'new_by_reference_type', 'follows_from'))
    c.prove(f[0] == 'ok', 'a follow-up can be derived', show(f))
    c.cover('followed')
    ids = rt.to_plist(rt.getattr_(f[1], 'rpcids'))
    c.prove(ids.zlen() == n, 'a follow-up has as many segments')
    c.prove(core.zb(ids.at(z3.simplify(n - 1)) == mkint(seg_spec(num, iv, tv, z3.simplify(n - 1))[1] + 1)), 'the last number is increased by one')
    i = generic(c, n)
    c.assume(i < n - 1)
    v = element(f[1], i)
    isint, y, t = seg_spec(num, iv, tv, i)
    if isinstance(v, (int, SymInt)):
        c.prove(z3.And(isint, zi(v) == y), 'the leading segments are kept')
    else:
        c.prove(z3.And(z3.Not(isint), core.zb(v == SymStr.atom(t))), 'the leading segments are kept')
