"""symbolic values: integers, reals, booleans, text and byte ropes, enums"""
import z3
from . import core
from .core import Unsupported

I, S, B, R = z3.IntSort(), z3.StringSort(), z3.BoolSort(), z3.RealSort()

def C():
    c = core.CUR
    if c is None or c.dead:
        raise core.PathEnd()
    return c

def guf(name, *sorts):
    core.GLOBAL_UFS.add(name)
    return z3.Function(name, *sorts)

U_UTF8ENC = guf('utf8enc', S, S)
U_UTF8DEC = guf('utf8dec', S, S)
U_UTF8OK = guf('utf8ok', S, B)          # bytes are valid UTF-8
U_ENCODABLE = guf('utf8encodable', S, B)
U_ISTR = guf('int2str', I, S)
U_INTOK = guf('pyint_ok', S, B)
U_PYINT = guf('pyint', S, I)
U_BE = {n: guf('be%d' % n, I, S) for n in (1, 2, 4, 8)}
U_UNBE = {n: guf('unbe%d' % n, S, I) for n in (1, 2, 4, 8)}
U_RSTR = guf('real2str', R, S)

def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymEnum):
        return x.t
    if z3.is_expr(x):
        return x
    raise TypeError('not an int: %r' % (x,))

def zr(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float('inf') else C().unsupported('non-finite float')
    return z3.ToReal(zi(x))

def zstr(s):
    """python str -> z3 String literal"""
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))

def simp(t):
    return z3.simplify(t)

def mkint(t):
    if isinstance(t, int):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)

def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)

def mkreal(t):
    return SymReal(z3.simplify(t))

class Sym(object):
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __hash__(self):
        raise Unsupported('hash of a symbolic value')
    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)
    __str__ = __repr__

class SymBool(Sym):
    __slots__ = ()
    def __bool__(self):
        return C().decide(self.t)
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == core.zb(o))
        return SymInt(zi(self)) == o
    def __ne__(self, o):
        return negate(self == o)
    __hash__ = Sym.__hash__
    def __and__(self, o): return mkbool(z3.And(self.t, core.zb(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.t, core.zb(o)))
    __ror__ = __or__

def negate(x):
    if x is NotImplemented:
        return x
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.t))
    return not x

def isnum(x):
    return isinstance(x, (int, float, SymInt, SymReal, SymBool, SymEnum))

def isreal(x):
    return isinstance(x, (float, SymReal))

class SymNum(Sym):
    __slots__ = ()
    def _bin(self, o, fi, fr=None, rev=False):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            a, b = zr(self), zr(o)
            if rev: a, b = b, a
            return mkreal((fr or fi)(a, b))
        a, b = zi(self), zi(o)
        if rev: a, b = b, a
        return mkint(fi(a, b))
    def _cmp(self, o, f):
        if not isnum(o):
            return NotImplemented
        if isinstance(o, float) and (o != o or abs(o) == float('inf')):
            return f(0.0, o)
        if isreal(self) or isreal(o):
            return mkbool(f(zr(self), zr(o)))
        return mkbool(f(zi(self), zi(o)))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o):
        if not isnum(o):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if not isinstance(o, (int, float)) or o == 0:
            if C().decide(zr(o) == 0):
                raise ZeroDivisionError('division by zero')
        return mkreal(zr(self) / zr(o))
    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if C().decide(zr(self) == 0):
            raise ZeroDivisionError('division by zero')
        return mkreal(zr(o) / zr(self))
    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0 and isinstance(self, SymInt):
            return mkint(self.t / o)
        raise Unsupported('floordiv')
    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and isinstance(self, SymInt):
            return mkint(self.t % o)
        raise Unsupported('mod')
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o + 1) & o == 0 and isinstance(self, SymInt):
            return mkint(self.t % (o + 1))
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0 and isinstance(self, SymInt):
            return mkint(((self.t / o) % 2) * o)
        raise Unsupported('bit and')
    __rand__ = __and__
    def __lshift__(self, o):
        if isinstance(o, int) and isinstance(self, SymInt):
            return mkint(self.t * (1 << o))
        raise Unsupported('shift')
    def __rshift__(self, o):
        if isinstance(o, int) and isinstance(self, SymInt):
            return mkint(self.t / (1 << o))
        raise Unsupported('shift')
    def __or__(self, o):
        raise Unsupported('bit or')
    __ror__ = __or__
    def __neg__(self): return (mkreal if isreal(self) else mkint)(-self.t)
    def __pos__(self): return self
    def __abs__(self):
        z = z3.If(self.t < 0, -self.t, self.t)
        return (mkreal if isreal(self) else mkint)(z)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        return negate(self.__eq__(o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__
    def __bool__(self):
        return C().decide(self.t != 0)
    def __index__(self):
        raise Unsupported('symbolic number used natively as an index')
    __int__ = __float__ = __index__

class SymInt(SymNum):
    __slots__ = ()

class SymReal(SymNum):
    __slots__ = ()

class SymEnum(SymNum):
    """a member of an IntEnum class, identified by its value"""
    __slots__ = ('cls',)
    def __init__(self, cls, t):
        self.cls = cls
        self.t = t
    @property
    def value(self):
        return mkint(self.t)
    @property
    def name(self):
        nm = guf('enumname_' + self.cls.__name__, I, S)(self.t)
        for m in self.cls:
            C().facts.append(z3.Implies(self.t == m.value, nm == zstr(m.name)))
        return SymStr.atom(nm)
    def model(self, m):
        return m.eval(self.t, model_completion=True).as_long()

# ------------------------------------------------------------------ ropes
class Lit(object):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def length(self): return z3.IntVal(len(self.v))
    def term(self): return zstr(self.v)
    def same(self, o): return isinstance(o, Lit) and o.v == self.v
    def subst(self, *m): return self

class Slc(object):
    """base[lo:hi] with 0 <= lo <= hi <= len(base)"""
    __slots__ = ('base', 'lo', 'hi')
    def __init__(self, base, lo=None, hi=None):
        self.base = base
        self.lo = z3.IntVal(0) if lo is None else z3.simplify(lo)
        self.hi = z3.simplify(z3.Length(base)) if hi is None else z3.simplify(hi)
    def whole(self):
        return z3.is_int_value(self.lo) and self.lo.as_long() == 0 and self.hi.eq(z3.simplify(z3.Length(self.base)))
    def length(self): return z3.simplify(self.hi - self.lo)
    def term(self):
        if self.whole():
            return self.base
        return z3.SubString(self.base, self.lo, z3.simplify(self.hi - self.lo))
    def same(self, o):
        return isinstance(o, Slc) and o.base.eq(self.base) and o.lo.eq(self.lo) and o.hi.eq(self.hi)
    def subst(self, *m):
        return Slc(z3.substitute(self.base, *m), z3.substitute(self.lo, *m), z3.substitute(self.hi, *m))

def cat_const(fn):
    """the array of prefix concatenations of a fold; folds with provably equal elements share it"""
    c = C()
    ks = tuple(l.k.get_id() for l in c.loops if l.open)
    reg = c.extra.setdefault('cats', [])
    i = z3.Const(c.name('cc'), I)
    snap = c.mark()
    c.facts.append(0 <= i)
    try:
        c.instantiate(i)
        mine = fn(i)
        for ks0, fn0, t in reg:
            if ks0 == ks:
                other = fn0(i)
                if type(other) is type(mine) and len(other.parts) == len(mine.parts) and c.entails(rope_eq(mine, other)):
                    return t
    finally:
        c.undo(snap)
    t = c.fresh('cat', z3.ArraySort(I, S))
    reg.append((ks, fn, t))
    return t

class Cat(object):
    """concatenation of fn(0) .. fn(n-1); fn: z3 Int -> Rope"""
    __slots__ = ('fn', 'n', 'c', 'lo')
    cnt = 0
    def __init__(self, fn, n, c=None):
        self.fn = fn
        self.n = z3.simplify(n)
        self.c = c if c is not None else cat_const(fn)
    def length(self): return z3.Length(self.term())
    def term(self): return z3.Select(self.c, self.n)
    def same(self, o):
        return isinstance(o, Cat) and o.c.eq(self.c) and o.n.eq(self.n)
    def subst(self, *m):
        fn = self.fn
        return Cat(lambda i: fn(i).subst(*m), z3.substitute(self.n, *m), z3.substitute(self.c, *m))

def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, Lit):
            if not p.v:
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].v + p.v)
                continue
        elif isinstance(p, Slc):
            if p.lo.eq(p.hi):
                continue
            if z3.is_string_value(p.base) and p.whole():
                v = core.zstr_value(p.base)
                if not v:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].v + v)
                else:
                    out.append(Lit(v))
                continue
            if out and isinstance(out[-1], Slc) and out[-1].base.eq(p.base) and out[-1].hi.eq(p.lo):
                out[-1] = Slc(p.base, out[-1].lo, p.hi)
                continue
        out.append(p)
    return tuple(out)

class Rope(object):
    __slots__ = ('parts',)
    def __init__(self, parts=()):
        self.parts = norm(parts)
    @classmethod
    def atom(cls, t):
        return cls((Slc(t),))
    @classmethod
    def lift(cls, x):
        if isinstance(x, cls):
            return x
        if isinstance(x, str) and cls is SymStr:
            return cls((Lit(x),))
        if isinstance(x, (bytes, bytearray)) and cls is SymBytes:
            return cls((Lit(bytes(x).decode('latin-1')),))
        return None
    def __hash__(self):
        raise Unsupported('hash of a symbolic text')
    def __repr__(self):
        def sh(p):
            if isinstance(p, Lit): return repr(p.v)
            if isinstance(p, Slc): return '%s' % p.base if p.whole() else '%s[%s:%s]' % (p.base, p.lo, p.hi)
            return 'Cat(..,%s)' % p.n
        return '<%s %s>' % (type(self).__name__, ' ++ '.join(sh(p) for p in self.parts))
    __str__ = __repr__
    def low(self):
        """lower to a native value when literal"""
        if not self.parts:
            return self.native('')
        if len(self.parts) == 1 and isinstance(self.parts[0], Lit):
            return self.native(self.parts[0].v)
        return self
    def zlen(self):
        if not self.parts:
            return z3.IntVal(0)
        return z3.simplify(z3.Sum([p.length() for p in self.parts])) if len(self.parts) > 1 else z3.simplify(self.parts[0].length())
    def len(self):
        return mkint(self.zlen())
    def term(self):
        ts = [p.term() for p in self.parts]
        if not ts:
            return z3.StringVal('')
        if len(ts) == 1:
            return ts[0]
        return z3.Concat(*ts)
    def subst(self, *m):
        return type(self)([p.subst(*m) for p in self.parts])
    def __bool__(self):
        if any(isinstance(p, Lit) for p in self.parts):
            return True
        return C().decide(self.zlen() > 0)
    def __add__(self, o):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        return type(self)(self.parts + o.parts).low()
    def __radd__(self, o):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        return type(self)(o.parts + self.parts).low()
    def __iadd__(self, o):
        return self.__add__(o)
    def __mul__(self, o):
        raise Unsupported('repetition of symbolic text')
    def eqt(self, o):
        """z3 formula for self == o"""
        return rope_eq(self, o)
    def __eq__(self, o):
        o = self.lift(o)
        if o is None:
            return False
        return mkbool(rope_eq(self, o))
    def __ne__(self, o):
        return negate(self.__eq__(o))
    def _ord(self, o):
        raise Unsupported('ordering of symbolic text')
    __lt__ = __le__ = __gt__ = __ge__ = _ord
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice step on text')
            return self.slice(i.start, i.stop)
        n = self.zlen()
        z = zi(i)
        if C().decide(z < 0):
            z = z + n
        if not C().decide(z3.And(0 <= z, z < n)):
            raise IndexError('index out of range')
        sub = self.slice(mkint(z), mkint(z + 1))
        return self.item(sub)
    def _clamp(self, x, n, dflt):
        if x is None:
            return dflt
        z = zi(x)
        c = C()
        if isinstance(x, int):
            if x == 0:
                return z3.IntVal(0)
            if x < 0:
                z = z3.simplify(n + x)
                return z if c.decide(z >= 0) else z3.IntVal(0)
            return z if c.decide(z <= n) else n
        if c.decide(z < 0):
            z = z3.simplify(n + z)
            return z if c.decide(z >= 0) else z3.IntVal(0)
        return z3.simplify(z) if c.decide(z <= n) else n
    def slice(self, lo, hi):
        self = self.expanded()
        n = self.zlen()
        lo = self._clamp(lo, n, z3.IntVal(0))
        hi = self._clamp(hi, n, n)
        if lo.eq(hi) or not C().decide(lo <= hi):
            return self.native('')
        return self.cut(lo, hi).low()
    def cut(self, lo, hi):
        """lo <= hi, both within bounds: z3 ints"""
        c = C()
        out = []
        off = z3.IntVal(0)
        lo = z3.simplify(lo); hi = z3.simplify(hi)
        started = False
        for p in self.parts:
            ln = p.length()
            end = z3.simplify(off + ln)
            a = b = None
            if not started:
                if lo.eq(off):
                    a = z3.IntVal(0)
                elif lo.eq(end):
                    off = end
                    continue
                elif c.decide(lo >= end):
                    off = end
                    continue
                else:
                    a = z3.simplify(lo - off)
                started = True
            else:
                a = z3.IntVal(0)
            last = False
            if hi.eq(end):
                b = ln; last = True
            elif hi.eq(off):
                break
            elif c.decide(hi >= end):
                b = ln
            else:
                b = z3.simplify(hi - off); last = True
            a = z3.simplify(a); b = z3.simplify(b)
            out.append(self._cutpart(p, a, b, ln))
            off = end
            if last:
                break
        return type(self)(out)
    def _cutpart(self, p, a, b, ln):
        whole = z3.is_int_value(a) and a.as_long() == 0 and b.eq(z3.simplify(ln))
        if whole:
            return p
        if isinstance(p, Lit):
            if z3.is_int_value(a) and z3.is_int_value(b):
                return Lit(p.v[a.as_long():b.as_long()])
            return Slc(zstr(p.v), a, b)
        if isinstance(p, Slc):
            return Slc(p.base, p.lo + a, p.lo + b)
        return Slc(p.term(), a, b)
    def model(self, m):
        v = core.model_value(m, self.term())
        return v
    # -- text-like methods shared by str and bytes
    def startswith(self, pre, *rest):
        if rest:
            raise Unsupported('startswith with bounds')
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        p = self.lift(pre)
        if p is None:
            raise TypeError('startswith first arg')
        if len(p.parts) <= 1 and (not p.parts or isinstance(p.parts[0], Lit)):
            v = p.parts[0].v if p.parts else ''
            if not v:
                return True
            if self.parts and isinstance(self.parts[0], Lit):
                w = self.parts[0].v
                if len(w) >= len(v):
                    return w.startswith(v)
                if not v.startswith(w):
                    return False
            elif self.parts and isinstance(self.parts[0], Slc) and self.parts[0].whole():
                b = self.parts[0].base
                c = C()
                core._keep.append(b)
                tested = c.extra.setdefault('prefixes', {})
                if v not in [x[1] for x in tested.get(b.get_id(), ())]:
                    tested.setdefault(b.get_id(), []).append((b, v, z3.PrefixOf(p.term(), b)))
        return mkbool(z3.PrefixOf(p.term(), self.term()))
    def expanded(self):
        """self with a prefix that is known to be there made explicit"""
        p = self.parts[0] if self.parts else None
        if not isinstance(p, Slc) or not p.whole():
            return self
        c = C()
        for b, v, f in c.extra.get('prefixes', {}).get(p.base.get_id(), ()):
            if c.entails(f):
                g = guf('after:' + v, S, S)
                def fact(t):
                    d = g(t)
                    c.describe(d, z3.Implies(z3.PrefixOf(zstr(v), t), t == z3.Concat(zstr(v), d)))
                fact(b)
                return type(self)((Lit(v), Slc(g(b))) + self.parts[1:])
        return self
    def endswith(self, suf, *rest):
        p = self.lift(suf)
        if rest or p is None:
            raise Unsupported('endswith')
        return mkbool(z3.SuffixOf(p.term(), self.term()))
    def __contains__(self, x):
        p = self.lift(x)
        if p is None:
            raise TypeError('in <string> requires string')
        if not p.parts:
            return True
        if len(p.parts) == 1 and isinstance(p.parts[0], Lit):
            for q in self.parts:
                if isinstance(q, Lit) and p.parts[0].v in q.v:
                    return True
        return C().decide(z3.Contains(self.term(), p.term()))
    def find(self, x, *r):
        p = self.lift(x)
        if r or p is None:
            raise Unsupported('find')
        return mkint(z3.IndexOf(self.term(), p.term(), 0))
    def index(self, x, *r):
        v = self.find(x, *r)
        if v < 0:
            raise ValueError('substring not found')
        return v
    def partition(self, sep):
        r = self._split1(sep)
        if r is None:
            e = self.native('')
            return (self, e, e)
        return (r[0], sep, r[1])
    def _split1(self, sep):
        """(before, after) first occurrence of literal sep, or None"""
        s = self.lift(sep)
        if s is None or len(s.parts) != 1 or not isinstance(s.parts[0], Lit) or len(s.parts[0].v) != 1:
            raise Unsupported('split on a symbolic separator')
        v = s.parts[0].v
        c = C()
        pre = []
        self = self.expanded()
        for n, p in enumerate(self.parts):
            if isinstance(p, Lit):
                j = p.v.find(v)
                if j >= 0:
                    return (type(self)(pre + [Lit(p.v[:j])]).low(),
                            type(self)([Lit(p.v[j + 1:])] + list(self.parts[n + 1:])).low())
                pre.append(p)
            else:
                t = p.term()
                if not c.decide(z3.Contains(t, zstr(v)), 'contains separator'):
                    pre.append(p)
                    continue
                j = z3.IndexOf(t, zstr(v), 0)
                jj = c.fresh('sep', I)
                c.assume(jj == j)
                c.assume(z3.And(jj >= 0, jj + 1 <= z3.Length(t)))
                b = type(self)([p])
                ln = p.length()
                return (type(self)(pre + [b._cutpart(p, z3.IntVal(0), jj, ln)]).low(),
                        type(self)([b._cutpart(p, jj + 1, z3.simplify(ln), ln)] + list(self.parts[n + 1:])).low())
        return None
    def split(self, sep=None, maxsplit=-1):
        from . import rt
        if sep is None:
            raise Unsupported('split on whitespace')
        if maxsplit == 1:
            r = self._split1(sep)
            return rt.plist([self] if r is None else [r[0], r[1]])
        if maxsplit == 0:
            return rt.plist([self])
        return rt.split_all(self, sep)
    def __iter__(self):
        raise Unsupported('iteration over symbolic text')

def rope_eq(a, b):
    """z3 Bool for equality of two ropes of the same kind"""
    pa, pb = list(a.parts), list(b.parts)
    def strip(pa, pb, first):
        while pa and pb:
            x, y = (pa[0], pb[0]) if first else (pa[-1], pb[-1])
            if x.same(y):
                if first: pa.pop(0); pb.pop(0)
                else: pa.pop(); pb.pop()
                continue
            if isinstance(x, Lit) and isinstance(y, Lit):
                n = min(len(x.v), len(y.v))
                if first:
                    if x.v[:n] != y.v[:n]: return False
                    pa[0:1] = [Lit(x.v[n:])] if len(x.v) > n else []
                    pb[0:1] = [Lit(y.v[n:])] if len(y.v) > n else []
                else:
                    if x.v[-n:] != y.v[-n:]: return False
                    pa[-1:] = [Lit(x.v[:-n])] if len(x.v) > n else []
                    pb[-1:] = [Lit(y.v[:-n])] if len(y.v) > n else []
                continue
            if isinstance(x, Slc) and isinstance(y, Slc) and x.base.eq(y.base):
                if first and x.lo.eq(y.lo) and not x.hi.eq(y.hi):
                    c = C()
                    if c.entails(x.hi <= y.hi):
                        pa.pop(0); pb[0:1] = [Slc(y.base, x.hi, y.hi)] if not c.entails(x.hi == y.hi) else []
                        continue
                    if c.entails(y.hi <= x.hi):
                        pb.pop(0); pa[0:1] = [Slc(y.base, y.hi, x.hi)]
                        continue
                elif first and not x.lo.eq(y.lo) and C().entails(x.lo == y.lo):
                    pb[0] = Slc(y.base, x.lo, y.hi)
                    continue
            if isinstance(x, Cat) and isinstance(y, Cat):
                if cat_eq(x, y):
                    if first: pa.pop(0); pb.pop(0)
                    else: pa.pop(); pb.pop()
                    continue
            break
        return True
    def pieces(pa, pb, first):
        """leading (trailing) pieces of equal fixed length: compared by value and taken off; None when they differ"""
        while pa and pb:
            if not strip(pa, pb, first):
                return False
            if not pa or not pb:
                return True
            x, y = (pa[0], pb[0]) if first else (pa[-1], pb[-1])
            if isinstance(y, BePart) and not isinstance(x, BePart):
                x, y = y, x
            if not isinstance(x, BePart):
                return True
            if isinstance(y, BePart):
                if x.k != y.k:
                    return True
                conds.append(x.base.arg(0) == y.base.arg(0))
                if first: pa.pop(0); pb.pop(0)
                else: pa.pop(); pb.pop()
                continue
            if isinstance(y, Lit) and len(y.v) >= x.k:
                v = y.v[:x.k] if first else y.v[-x.k:]
                rest = y.v[x.k:] if first else y.v[:-x.k]
                conds.append(x.base.arg(0) == int.from_bytes(v.encode('latin-1'), 'big'))
                for q in (pa, pb):
                    z = q[0] if first else q[-1]
                    if isinstance(z, Lit):
                        if first: q[0:1] = [Lit(rest)] if rest else []
                        else: q[-1:] = [Lit(rest)] if rest else []
                    else:
                        if first: q.pop(0)
                        else: q.pop()
                continue
            return True
        return True
    conds = []
    if not strip(pa, pb, True) or not strip(pa, pb, False):
        return z3.BoolVal(False)
    if not pieces(pa, pb, True) or not pieces(pa, pb, False):
        return z3.BoolVal(False)
    if conds:
        rest = rope_eq(type(a)(pa), type(a)(pb))
        return z3.simplify(z3.And(*(conds + [rest])))
    if not pa and not pb:
        return z3.BoolVal(True)
    if not pa or not pb:
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [p.length() for p in pa + pb])) == 0
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Slc) and isinstance(pb[0], Slc) and pa[0].base.eq(pb[0].base):
        x, y = pa[0], pb[0]
        cond = z3.And(x.lo == y.lo, x.hi == y.hi)
        if C().entails(cond):
            return z3.BoolVal(True)
    ra, rb = type(a)(pa), type(b)(pb)
    if not C().feasible(ra.zlen() == rb.zlen()):
        return z3.BoolVal(False)
    f = injective_eq(pa, pb)
    if f is not None:
        return f
    return ra.term() == rb.term()

def injective_eq(pa, pb):
    """be_n(x) == be_n(y) / enc(x) == enc(y): compare the arguments (both functions are injective)"""
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Slc) and isinstance(pb[0], Slc) and pa[0].whole() and pb[0].whole():
        x, y = pa[0].base, pb[0].base
        if z3.is_app(x) and z3.is_app(y) and x.decl().eq(y.decl()) and x.num_args() == 1:
            nm = x.decl().name()
            if nm in ('utf8enc', 'int2str') or nm.startswith('be'):
                return x.arg(0) == y.arg(0)
    return None

def cat_eq(x, y):
    """sufficient condition for two folds to be equal (generic element)"""
    if x.n.eq(y.n) is False and not C().entails(x.n == y.n):
        return False
    c = C()
    i = z3.Const(c.name('ci'), I)
    snap = c.mark()
    c.facts.append(z3.And(0 <= i, i < x.n))
    try:
        c.instantiate(i)
        r = c.entails(rope_eq(x.fn(i), y.fn(i)))
    finally:
        c.undo(snap)
    return r

class SymStr(Rope):
    __slots__ = ()
    def native(self, v):
        return v
    def item(self, sub):
        return sub
    def encode(self, coding='utf-8', errors='strict'):
        if str(coding).lower().replace('-', '').replace('_', '') != 'utf8' or errors != 'strict':
            raise Unsupported('encoding %r %r' % (coding, errors))
        c = C()
        out = []
        for p in self.parts:
            if isinstance(p, Lit):
                out.append(Lit(p.v.encode('utf-8').decode('latin-1')))
            else:
                t = p.term()
                if z3.is_app(t) and t.decl().name() == 'utf8dec':
                    # text obtained by decoding: encodes back to exactly those bytes
                    out.extend(SymBytes.atom(t.arg(0)).parts if not c.extra.get(('decrope', t.get_id())) else c.extra[('decrope', t.get_id())].parts)
                    continue
                if not c.decide(U_ENCODABLE(t), 'encodable'):
                    raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
                e = U_UTF8ENC(t)
                c.describe(e, z3.And(U_UTF8OK(e), U_UTF8DEC(e) == t))
                c.describe(e, z3.And(z3.Length(e) >= z3.Length(t), (z3.Length(t) == 0) == (z3.Length(e) == 0)))
                out.append(Slc(e))
        return SymBytes(out).low()
    def format(self, *a, **k):
        raise Unsupported('symbolic format string')
    def strip(self, *a):
        raise Unsupported('strip of symbolic text')
    lower = upper = lstrip = rstrip = replace = title = strip
    def isdigit(self):
        raise Unsupported('isdigit')

class SymBytes(Rope):
    __slots__ = ()
    def native(self, v):
        return v.encode('latin-1')
    def item(self, sub):
        if isinstance(sub, bytes):
            return sub[0]
        return mkint(z3.StrToCode(sub.term()))
    def decode(self, coding='utf-8', errors='strict'):
        if str(coding).lower().replace('-', '').replace('_', '') != 'utf8' or errors != 'strict':
            raise Unsupported('decoding %r %r' % (coding, errors))
        c = C()
        if not self.parts:
            return ''
        # encodings of texts, concatenated, decode to the concatenated texts
        out = []
        ok = True
        for p in self.parts:
            if isinstance(p, Lit):
                try:
                    out.append(Lit(p.v.encode('latin-1').decode('utf-8')))
                except UnicodeDecodeError:
                    ok = False
                    break
            elif isinstance(p, Slc) and p.whole() and z3.is_app(p.base) and p.base.decl().name() == 'utf8enc':
                out.append(Slc(p.base.arg(0)))
            else:
                ok = False
                break
        if ok:
            return SymStr(out).low()
        t = self.term()
        if not c.decide(U_UTF8OK(t), 'valid utf-8'):
            raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid start byte')
        d = U_UTF8DEC(t)
        c.describe(d, z3.And(U_UTF8ENC(d) == t, U_ENCODABLE(d)))
        c.describe(d, z3.And(z3.Length(d) <= z3.Length(t), (z3.Length(t) == 0) == (z3.Length(d) == 0)))
        c.extra[('decrope', d.get_id())] = self
        core._keep.append(d)
        return SymStr.atom(d)
    def hex(self):
        raise Unsupported('hex')
    def strip(self, *a):
        raise Unsupported('strip of symbolic bytes')
    def tobytes(self):
        return self

def istr(x):
    """str(int)"""
    if isinstance(x, int):
        return str(int(x))
    c = C()
    t = zi(x)
    s = U_ISTR(t)
    c.describe(s, z3.And(U_INTOK(s), U_PYINT(s) == t, z3.Length(s) >= 1, z3.Not(z3.Contains(s, z3.StringVal('.')))))
    c.describe(s, U_ENCODABLE(s))
    return SymStr.atom(s)

def be(n, u):
    """n-byte big-endian of the unsigned z3 int u (already known to be in range)"""
    u = z3.simplify(u)
    if z3.is_int_value(u):
        return SymBytes((Lit(u.as_long().to_bytes(n, 'big').decode('latin-1')),))
    # be(unbe(b)) is b
    if z3.is_app(u) and u.decl().name() == 'unbe%d' % n:
        r = C().extra.get(('unberope', u.get_id()))
        if r is not None:
            return r
    c = C()
    s = U_BE[n](u)
    c.describe(s, z3.And(z3.Length(s) == n, U_UNBE[n](s) == u))
    return SymBytes((BeSlc(s, n),))

def BeSlc(s, n):
    p = Slc(s)
    p.hi = z3.IntVal(n)
    return BePart(s, n)

class BePart(Slc):
    """whole be_n(u) atom of known length"""
    __slots__ = ('k',)
    def __init__(self, s, n):
        self.base = s; self.lo = z3.IntVal(0); self.hi = z3.IntVal(n); self.k = n
    def whole(self): return True
    def subst(self, *m):
        return BePart(z3.substitute(self.base, *m), self.k)

def unbe(n, rope):
    """unsigned value of an n-byte rope"""
    if isinstance(rope, bytes):
        return z3.IntVal(int.from_bytes(rope, 'big'))
    c = C()
    if len(rope.parts) == 1:
        p = rope.parts[0]
        if isinstance(p, Lit):
            return z3.IntVal(int.from_bytes(p.v.encode('latin-1'), 'big'))
        if isinstance(p, BePart) and p.k == n:
            return p.base.arg(0)
    t = rope.term()
    v = U_UNBE[n](t)
    core._keep.append(v)
    c.describe(v, z3.And(v >= 0, v < 256 ** n, U_BE[n](v) == t))
    c.extra[('unberope', v.get_id())] = rope
    return v
