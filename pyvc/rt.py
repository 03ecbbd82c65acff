"""runtime called by instrumented code"""
import sys, string, enum, functools, builtins
import z3
from . import core, sym, loops, containers
from .core import Unsupported, Internal, PathEnd
from .sym import (C, I, S, SymInt, SymBool, SymStr, SymBytes, SymReal, SymEnum, Sym, SymNum, Rope, Lit, Slc, mkint, mkbool,
                  mkreal, zi, zr, istr)
from .containers import PList, PDict, Opaque, Obj, Bulk, is_symbolic, veq, conj, Mut
from .loops import WhileLoop, ForLoop, UNB, Poison

class Model(object):
    """marker base of engine models of library objects"""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        c = core.CUR
        if c is not None:
            c.ser(o)
        return o
    def __setattr__(self, k, v):
        c = core.CUR
        if c is not None and c.mut_watch:
            for w in c.mut_watch:
                w.note(self, k)
        object.__setattr__(self, k, v)

class StarArg(object):
    def __init__(self, pl): self.pl = pl

def guard():
    e = sys.exc_info()[1]
    if isinstance(e, Internal):
        raise e
    c = core.CUR
    if c is None or c.dead:
        if isinstance(e, GeneratorExit):
            raise e             # a generator of a finished path is collected
        raise PathEnd()

def fn(name):
    c = core.CUR
    if c is None or c.dead:
        raise PathEnd()
    c.sess.functions.add(name)

def note(obj, attr):
    c = core.CUR
    if c is None or c.dead:
        raise PathEnd()
    if isinstance(obj, type):
        pass
    for w in c.mut_watch:
        w.note(obj, attr)
    h = c.extra.get('on_store')
    if h:
        h(obj, attr)

def unbound(x):
    return x is UNB

def while_(lid, names, live):
    return WhileLoop(lid, names, live)

def for_(it, lid, names, live):
    return ForLoop(symiter(it), lid, names, live)

def symiter(it):
    """list-like symbolic iterables -> PList, else unchanged"""
    if isinstance(it, PIter):
        return it.take()
    if isinstance(it, PList):
        return it
    if isinstance(it, PDict):
        f = getattr(type(it), '__iter__')
        if f is PDict.__iter__:
            return it.keys()
        return it
    f = getattr(it, '__pyvc_list_of__', None)
    if f is not None and not isinstance(it, type):
        return f()
    return it

class PIter(PList):
    """iter(x) of a list-like x: used up by whoever iterates over it"""
    def take(self):
        if self.__dict__.get('spent'):
            raise Unsupported('an iterator that was iterated over before')
        self._set('spent', True)
        return PList(self)

def native_iter(it):
    if isinstance(it, (Sym, Opaque)):
        raise TypeError('%r object is not iterable' % type(it).__name__)
    if isinstance(it, Rope):
        raise Unsupported('iteration over symbolic text')
    return builtins.iter(it)

def to_plist(it):
    it = symiter(it)
    if isinstance(it, PList):
        return it
    if isinstance(it, (list, tuple)):
        return PList.of(it)
    if isinstance(it, range) and len(it) > 64:
        st, sp = it.start, it.step
        return PList.seg(lambda i: mkint(z3.simplify(st + i * sp)), z3.IntVal(len(it)))
    r = PList()
    r.parts = [('v', v) for v in native_iter(it)]
    return r

def plist(vals):
    return PList.of(vals)

def mklist(*vals):
    return PList.of(vals)

def mklistx(*items):
    r = PList()
    for k, v in items:
        if k == '.':
            r.parts = r.parts + [('v', v)]
        else:
            r.parts = r.parts + list(to_plist(v).parts)
    return r

def unpack(v, n, m):
    """the values of an assignment to n targets, or to n targets, a starred one and m more"""
    p = symiter(v)
    if not isinstance(p, PList) or p.concrete():
        if m is None:
            return p.vals() if isinstance(p, PList) else v
        l = p.vals() if isinstance(p, PList) else list(native_iter(p))
        if len(l) < n + m:
            raise ValueError('not enough values to unpack')
        return list(l[:n]) + [PList.of(l[n:len(l) - m])] + list(l[len(l) - m:])
    k = p.zlen()
    if not C().decide(k == n if m is None else k >= n + m, 'as many values as targets'):
        raise ValueError('wrong number of values to unpack')
    head = [p.at(z3.IntVal(i)) for i in range(n)]
    if m is None:
        return head
    return head + [p.slice(slice(n, -m if m else None))] + [p.at(z3.simplify(k - m + i)) for i in range(m)]

def mkdict(*items):
    d = PDict()
    for k, a, b in items:
        if k == '.':
            PDict._put(d, a, b)
        else:
            d._fill(b)
    return d

def mkset(l):
    return builtins.set(l.vals())

def gen(l):
    return l

def args_in(args):
    if any(isinstance(a, StarArg) for a in args):
        r = PList()
        for a in args:
            if isinstance(a, StarArg):
                r.parts = r.parts + list(a.pl.parts)
            else:
                r.parts = r.parts + [('v', a)]
        return r
    return args

def kwargs_in(kw):
    sk = kw.pop('__pyvc_kw__', None)
    d = PDict()
    for k, v in kw.items():
        PDict._put(d, k, v)
    if sk is not None:
        d._fill(sk)
    return d

# ------------------------------------------------------------------ calls
def getm(obj, name):
    return getattr_(obj, name)

def callm(obj, name, *a, **k):
    c = core.CUR
    if c is None or c.dead:
        raise PathEnd()
    if isinstance(obj, (str, bytes)) and type(obj) in (str, bytes):
        h = STRM.get(name)
        if h is not None:
            return h(obj, *a, **k)
    if isinstance(obj, (SymStr, SymBytes)) and name == 'join':
        return join_(obj, *a)
    return call(getattr_(obj, name), *a, **k)

def callx(f, al, kl):
    c = core.CUR
    if c is None or c.dead:
        raise PathEnd()
    args = []
    for k, v in al:
        if k == '.':
            args.append(v)
        else:
            v = symiter(v)
            if isinstance(v, PList) and not v.concrete():
                args.append(StarArg(v))
            else:
                args.extend(native_iter(v))
    kw = {}
    sk = None
    for name, v in kl:
        if name is not None:
            if name in kw:
                raise TypeError('got multiple values for keyword argument %r' % name)
            kw[name] = v
        elif isinstance(v, PDict):
            for s in v.segs:
                if s[0] == 'e' and isinstance(s[1], str):
                    if s[1] in kw:
                        raise TypeError('got multiple values for keyword argument %r' % s[1])
                    kw[s[1]] = s[2]
                else:
                    if sk is None:
                        sk = PDict()
                    if s[0] == 'e':
                        PDict._put(sk, s[1], s[2])
                    else:
                        b = s[1].clone()
                        if b.under:
                            b.absent = b.absent + [e[1] for e in v.segs if e[0] == 'e']    # hidden by these
                        sk._set('segs', sk.segs + [('b', b)])
        else:
            for kk in v.keys():
                if kk in kw:
                    raise TypeError('got multiple values for keyword argument %r' % kk)
                kw[kk] = v[kk]
    if sk is not None:
        for s in sk.segs:
            if s[0] == 'b':
                for name in [n for n, v in kl if n is not None]:
                    if s[1].find(name) is not None:
                        raise TypeError('got multiple values for keyword argument %r' % name)
        kw['__pyvc_kw__'] = sk
        check_kw_binding(f, sk)
    return call(f, *args, **kw)

def check_kw_binding(f, sk):
    """symbolic keyword names must not name a parameter of the callee (precondition of the call)"""
    g = f
    if isinstance(g, type):
        g = getattr(g, '__init__', None)
        if issubclass(f, PDict) and g is PDict.__init__:
            return
    g = getattr(g, '__func__', g)
    code = getattr(g, '__code__', None)
    if code is None or (getattr(g, '__module__', None) or '').startswith('pyvc.'):
        return
    names = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]
    for s in sk.segs:
        if s[0] == 'b':
            for n in names:
                if s[1].find(n) is not None:
                    raise TypeError('got multiple values for argument %r' % n)
        else:
            for n in names:
                if veq(s[1], n) is not False and C().decide(core.zb(veq(s[1], n))):
                    raise TypeError('got multiple values for argument %r' % n)

def call(f, *a, **k):
    c = core.CUR
    if c is None or c.dead:
        raise PathEnd()
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    except Unsupported:
        h = None
    ghosts = c.extra.get('ghosts')
    if ghosts and (h is not None or not isinstance(f, FUNCS + (type,)) or (f.__module__ or '').startswith('pyvc')):
        ghosts = None
    if ghosts:
        a = tuple([resolve(c, ghosts, x) for x in a])
    if h is not None:
        return h(*a, **k)
    cons = c.extra.get('contracts')
    if cons:
        g = getattr(f, '__func__', f)
        q = getattr(g, '__qualname__', None)
        if q is not None:
            key = '%s:%s' % (getattr(g, '__module__', ''), q)
            con = cons.get(key)
            if con is not None and key not in c.extra.get('inlining', ()):
                c.sess.contracts_used.add(key)
                args = ((f.__self__,) if hasattr(f, '__self__') and not isinstance(f.__self__, type(sys)) else ()) + a
                return con(c, f, *args, **k)
    if isinstance(f, type):
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
            return enum_call(f, a[0])
        o = f(*a, **k)
        c.ser(o)
        return o
    if not isinstance(f, FUNCS) or isinstance(f, BUILTIN):
        if isinstance(f, BUILTIN):
            return builtin_call(f, a, k)
        cl = getattr(type(f), '__call__', None)
        if cl is None:
            raise TypeError('%r object is not callable' % type(f).__name__)
    c.depth += 1
    if c.depth > 120:
        raise Unsupported('call depth')
    try:
        r = f(*a, **k)
        return resolve(c, ghosts, r) if ghosts else r
    finally:
        c.depth -= 1

def resolve(c, ghosts, v):
    """a piece of a stream whose content a contract has described: the described content (when the piece begins and ends where parts do)"""
    if not isinstance(v, SymBytes) or not v.parts or not all(type(q) is Slc and q.base.eq(v.parts[0].base) for q in v.parts):
        return v
    if not any(v.parts[0].base.eq(base) for base, p0, rope in ghosts):
        return v
    for q, r in zip(v.parts, v.parts[1:]):
        if not (q.hi.eq(r.lo) or c.entails(q.hi == r.lo)):
            return v
    p = Slc(v.parts[0].base, v.parts[0].lo, v.parts[-1].hi)
    for base, p0, rope in ghosts:
        if not p.base.eq(base):
            continue
        key = ('resolved', core.gid(p.lo), core.gid(p.hi))
        if key in c.extra:
            return c.extra[key]
        off, lo, out = p0, None, []
        if c.entails(p.lo == p.hi):
            return b''
        for q in rope.parts:
            if lo is None and c.entails(p.lo == off):
                lo = off
            if lo is not None:
                out.append(q)
            off = z3.simplify(off + q.length())
            if lo is not None and c.entails(p.hi == off):
                r = c.extra[key] = SymBytes(tuple(out)).low()
                return r
    return v

import types
FUNCS = (types.FunctionType, types.MethodType)
BUILTIN = (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType, types.WrapperDescriptorType,
           types.MethodWrapperType, types.ClassMethodDescriptorType)

def anysym(a, k):
    return any(is_symbolic(x) or isinstance(x, (PList, PDict)) for x in a) or any(is_symbolic(x) or isinstance(x, (PList, PDict)) for x in k.values())

def builtin_call(f, a, k):
    s = getattr(f, '__self__', None)
    nm = getattr(f, '__name__', '')
    if isinstance(s, (str, bytes)) and type(s) in (str, bytes):
        h = STRM.get(nm)
        if h is not None:
            return h(s, *a, **k)
    if not anysym(a, k):
        return f(*a, **k)
    if isinstance(s, dict) and not isinstance(s, PDict):
        if nm in ('get', '__getitem__', 'pop', 'setdefault', '__contains__') and is_symbolic(a[0]):
            for kk in list(s):
                if veq(kk, a[0]) is not False and C().decide(core.zb(veq(kk, a[0]))):
                    return f(kk, *a[1:], **k)
            miss = object()
            return f(miss, *a[1:], **k)
        if nm in ('update',):
            for x in a:
                for kk, v in x.items().vals():
                    s[kk] = v
            s.update(k)
            return None
        return f(*a, **k)
    if isinstance(s, (list, set)) or f in PASS_BUILTINS or nm in ('__setattr__', '__init__', '__new__', '__init_subclass__', 'partial', 'set_result', 'setattr', 'set', 'append', 'add', 'add_note', 'with_traceback'):
        return f(*a, **k)
    if isinstance(s, type) and issubclass(s, tuple):
        return f(*a, **k)
    raise Unsupported('builtin %r called with symbolic arguments' % (f,))

PASS_BUILTINS = {object.__init__, builtins.id, Exception.__init__, BaseException.__init__, ValueError.__init__}

def enum_call(cls, x):
    if isinstance(x, SymEnum):
        if x.cls is cls:
            return x
        x = mkint(x.t)
    if isinstance(x, (SymInt, SymBool)):
        t = zi(x)
        vals = [int(m) for m in cls]
        if C().decide(z3.Or(*[t == v for v in vals]), 'valid %s' % cls.__name__):
            if len(vals) == 1:
                return cls(vals[0])
            return SymEnum(cls, t)
        raise ValueError('invalid %s' % cls.__name__)
    if isinstance(x, (Rope, SymReal, Opaque, PDict, PList)):
        if isinstance(x, SymReal):
            for m in cls:
                if C().decide(x.t == int(m)):
                    return m
        raise ValueError('%r is not a valid %s' % (x, cls.__name__))
    return cls(x)

# ------------------------------------------------------------------ builtins
def len_(x):
    if isinstance(x, Rope):
        return x.len()
    if isinstance(x, PList):
        return x.len()
    if isinstance(x, (Sym, Opaque)):
        raise TypeError('object of type %r has no len()' % type(x).__name__)
    f = getattr(type(x), '__len__', None)
    if f is not None and isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, PDict):
        return x.plen()
    return builtins.len(x)

def _pdict_bool(self):
    f = getattr(type(self), '__len__', None)
    if f is not None:
        return bool(f(self) != 0)
    return _old_bool(self)
_old_bool = PDict.__bool__
PDict.__bool__ = _pdict_bool

def isinstance_(x, cls):
    if isinstance(cls, (tuple, PList)):
        for cc in (cls.vals() if isinstance(cls, PList) else cls):
            if isinstance_(x, cc):
                return True
        return False
    if cls is PList:
        return isinstance(x, (PList, list))
    if cls is PDict or cls is dict:
        return isinstance(x, (PDict, dict))
    if isinstance(x, SymBool):
        return cls in (bool, int, object)
    if isinstance(x, SymInt):
        return cls in (int, object) or getattr(cls, '__name__', '') in ('Integral', 'Number', 'Real')
    if isinstance(x, SymReal):
        return cls in (float, object) or getattr(cls, '__name__', '') in ('Number', 'Real')
    if isinstance(x, SymEnum):
        return isinstance(cls, type) and issubclass(x.cls, cls)
    if isinstance(x, SymStr):
        return cls in (str, object)
    if isinstance(x, SymBytes):
        return cls in (bytes, object)
    if isinstance(x, Opaque):
        return cls is object or cls in x.attrs.get('isa', ())
    if isinstance(x, (int, str, bytes, float)) or x is None:
        return builtins.isinstance(x, cls)
    isa = getattr(type(x), '__pyvc_isa__', None)
    if isa is not None and cls in isa:
        return True
    return builtins.isinstance(x, cls)

def type_(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if isinstance(x, SymBool): return bool
    if isinstance(x, SymInt): return int
    if isinstance(x, SymReal): return float
    if isinstance(x, SymStr): return str
    if isinstance(x, SymBytes): return bytes
    if isinstance(x, SymEnum): return x.cls
    return builtins.type(x)

def str_(*a, **k):
    if not a:
        return ''
    x = a[0]
    if len(a) > 1 or k:
        return callm(x, 'decode', *a[1:], **k)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str) and type(x) is str:
        return x
    if isinstance(x, SymBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, (SymInt, SymEnum)):
        return istr(x)
    if isinstance(x, SymReal):
        return SymStr.atom(sym.U_RSTR(x.t))
    if isinstance(x, Opaque):
        return SymStr.atom(U_OSTR(x.t))
    if isinstance(x, (SymBytes, PList, PDict)):
        f = getattr(type(x), '__str__', None)
        if isinstance(x, PDict) and f is not PDict.__str__ and isinstance(f, types.FunctionType) and f.__module__ and f.__module__.split('.')[0] in ('mytracer', 'anthunder', 'mysockpool'):
            return f(x)
        return text_of(x)
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException):
        return text_of(x) if anysym(x.args, {}) or len(x.args) != 1 else str_(x.args[0])
    return builtins.str(x)

U_OSTR = sym.guf('str_of', Opaque.VAL, S)
def text_of(x):
    """some text (not specified further) for a value; the same object gives the same text"""
    c = C()
    d = c.extra.setdefault('text_of', {})
    if id(x) not in d:
        d[id(x)] = (SymStr.atom(c.fresh('text', S)), x)
    return d[id(x)][0]

def repr_(x):
    if is_symbolic(x) or isinstance(x, (PList, PDict)):
        return text_of(x)
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.repr(x)

def int_(*a, **k):
    if not a:
        return 0
    x = a[0]
    if len(a) > 1 or k:
        if is_symbolic(x):
            raise Unsupported('int with base')
        return builtins.int(*a, **k)
    if isinstance(x, SymBool):
        return mkint(zi(x))
    if isinstance(x, (SymInt, SymEnum)):
        return mkint(x.t)
    if isinstance(x, SymReal):
        return mkint(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, (SymStr, SymBytes)):
        if isinstance(x, SymBytes):
            raise Unsupported('int(bytes)')
        t = x.term()
        if C().decide(sym.U_INTOK(t), 'text is a number'):
            return mkint(sym.U_PYINT(t))
        raise ValueError('invalid literal for int()')
    f = getattr(x, '__pyvc_int__', None)
    if f is not None and not isinstance(x, type):
        return f()
    if isinstance(x, (Opaque, PList, PDict)):
        raise TypeError('int() argument must be a string or a number')
    return builtins.int(x)

def float_(x=0.0):
    if isinstance(x, (SymInt, SymEnum, SymBool)):
        return mkreal(zr(x))
    if isinstance(x, SymReal):
        return x
    if is_symbolic(x):
        raise Unsupported('float of text')
    return builtins.float(x)

def bool_(x=False):
    return bool(x)

def bytes_(*a, **k):
    if not a:
        return b''
    x = a[0]
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if isinstance(x, (SymInt, PList)):
        if isinstance(x, PList) and x.concrete() and not any(is_symbolic(v) for v in x.vals()):
            return builtins.bytes(x.vals())
        raise Unsupported('bytes(%s)' % type(x).__name__)
    return builtins.bytes(*a, **k)

def list_(*a):
    if not a:
        return PList()
    return PList(to_plist(a[0]))

def tuple_(*a):
    if not a:
        return ()
    p = to_plist(a[0])
    if not p.concrete():
        return p
    return builtins.tuple(p.vals())

def range_(*a):
    if not any(isinstance(x, SymInt) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('range with symbolic step')
    c = C()
    n = c.fresh('rangelen', I)
    c.assume(n == z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), z3.IntVal(0)))
    zlo = zi(lo)
    return PList.seg(lambda i: mkint(zlo + i), n)

def chunks(it, m):
    """zip(it, ..., it) of one iterator, m times"""
    p = it.take()
    if p.concrete():
        v = iter(p.vals())
        return builtins.zip(*[v] * m)
    f = to_plist(p)
    n = C().fresh('chunks', I)
    C().assume(z3.And(n * m <= f.zlen(), f.zlen() < n * m + m, n >= 0))
    return PList.seg(lambda i: tuple(f.at(z3.simplify(i * m + j)) for j in range(m)), n)

def zip_(*its, **k):
    if len(its) > 1 and any(isinstance(i, PIter) for i in its):
        if all(i is its[0] for i in its) and not k:
            return chunks(its[0], len(its))
        if len(set(map(id, its))) < len(its):
            raise Unsupported('zip of an iterator with itself and others')
    ps = [symiter(i) for i in its]
    if not any(isinstance(p, PList) and not p.concrete() for p in ps):
        return builtins.zip(*[p.vals() if isinstance(p, PList) else p for p in ps], **k)
    ps = [to_plist(p) for p in ps]
    c = C()
    if all(len(p.parts) == len(ps[0].parts) and all(
            x[0] == y[0] and (x[0] == 'v' or c.entails(x[2] == y[2])) for x, y in zip(p.parts, ps[0].parts)) for p in ps):
        r = PList()
        for col in zip(*[p.parts for p in ps]):
            if col[0][0] == 'v':
                r.parts.append(('v', tuple(x[1] for x in col)))
            else:
                fns = [x[1] for x in col]
                if any(x[3] is not None for x in col):
                    raise Unsupported('zip of filtered lists')
                r.parts.append(('s', (lambda fns: lambda i: tuple(f(i) for f in fns))(fns), col[0][2], None))
        return r
    n = None
    ls = [p.zlen() for p in ps]
    m = c.fresh('ziplen', I)
    c.assume(z3.And(*[m <= l for l in ls]))
    c.assume(z3.Or(*[m == l for l in ls]))
    return PList.seg(lambda i: tuple(p.at(i) for p in ps), m)

def endless(it):
    from .models import base
    return isinstance(it, (base.Count, base.Cycle, base.Mapped))

def gen1(first, run, fn):
    """a generator expression over first"""
    if endless(first):
        from .models.base import Mapped
        return Mapped(fn, first)
    return gen(run(first))

def map_(f, *its):
    if len(its) == 1 and endless(its[0]):
        from .models.base import Mapped
        return Mapped(f, its[0])
    if len(its) == 1:
        p = symiter(its[0])
        if isinstance(p, PList) and not p.concrete():
            return PRE().map1(f, p)
        r = PList()
        r.parts = [('v', call(f, x)) for x in native_iter(p)]
        return r
    return map_star(f, zip_(*its))

def map_star(f, z):
    if isinstance(z, PList) and not z.concrete():
        return PRE().mapn(f, z)
    return PList.of([call(f, *x) for x in z])

def filter_(f, it):
    p = symiter(it)
    if isinstance(p, PList) and not p.concrete():
        return PRE().filter1(f, p)
    return PList.of([x for x in native_iter(p) if (bool(x) if f is None else bool(call(f, x)))])

def enumerate_(it, start=0):
    p = symiter(it)
    if isinstance(p, PList) and not p.concrete():
        r = PList()
        off = zi(start)
        for q in p.parts:
            if q[0] == 'v':
                r.parts.append(('v', (mkint(off), q[1])))
                off = z3.simplify(off + 1)
            else:
                r.parts.append(('s', (lambda o, f: lambda i: (mkint(o + i), f(i)))(off, q[1]), q[2], q[3]))
                off = z3.simplify(off + q[2])
        return r
    return builtins.enumerate(p.vals() if isinstance(p, PList) else p, start)

def all_(it):
    p = symiter(it)
    if isinstance(p, PList) and not p.concrete():
        return PRE().all1(p)
    for x in native_iter(p):
        if not x:
            return False
    return True

def any_(it):
    p = symiter(it)
    if isinstance(p, PList) and not p.concrete():
        return PRE().any1(p)
    for x in native_iter(p):
        if x:
            return True
    return False

def sum_(it, start=0):
    p = symiter(it)
    if isinstance(p, PList) and not p.concrete():
        return PRE().sum1(p, start)
    t = start
    for x in native_iter(p):
        t = t + x
    return t

def minmax(isless):
    def f(*a, **k):
        if k and not set(k) <= {'default', 'key'} or 'key' in k:
            if not any(anysym([x], {}) for x in a):
                return (builtins.min if isless else builtins.max)(*a, **k)
            raise Unsupported('min/max with key')
        xs = list(a) if len(a) > 1 else to_plist(a[0]).vals()
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('empty sequence')
        r = xs[0]
        for x in xs[1:]:
            if isless:
                if x < r: r = x
            else:
                if x > r: r = x
        return r
    return f

def reversed_(it):
    p = symiter(it)
    if isinstance(p, PList):
        if not p.concrete():
            if len(p.parts) == 1 and p.parts[0][3] is None:
                _, fn, n, _ = p.parts[0]
                return PList.seg(lambda i: fn(z3.simplify(n - 1 - i)), n)
            raise Unsupported('reversed')
        return PList.of(builtins.list(builtins.reversed(p.vals())))
    return builtins.reversed(p)

def sorted_(it, **k):
    p = symiter(it)
    if isinstance(p, PList):
        p = p.vals()
    return PList.of(builtins.sorted(p, **k))

def next_(it, *d):
    f = getattr(it, '__pyvc_next__', None)
    if f is not None and not isinstance(it, type):
        return f()
    if isinstance(it, PList):
        # generator expressions are evaluated eagerly to lists
        if it.__dict__.get('spent'):
            raise Unsupported('an iterator that was iterated over before')
        if it.parts and it.parts[0][0] == 'v':
            v = it.parts[0][1]
            it._set('parts', it.parts[1:])
            return v
        if not it.parts:
            if d: return d[0]
            raise StopIteration()
        p = it.parts[0]
        if p[3] is None:
            if C().decide(p[2] > 0):
                it._set('parts', [('s', (lambda f: lambda i: f(z3.simplify(i + 1)))(p[1]), z3.simplify(p[2] - 1), None)] + it.parts[1:])
                return p[1](z3.IntVal(0))
            it._set('parts', it.parts[1:])
            return next_(it, *d)
        raise Unsupported('next of a filtered symbolic list')
    return builtins.next(it, *d)

def iter_(it, *a):
    if a:
        return builtins.iter(it, *a)
    if isinstance(it, PIter):
        return it
    p = symiter(it)
    if isinstance(p, PList):
        return PIter(p)
    return builtins.iter(p)

def getattr_(o, name, *d):
    if isinstance(name, SymStr):
        f = getattr(o, '__pyvc_getattr__', None)
        if f is not None:
            return f(name, *d)
        # a symbolic method name on an instrumented object: fork over the attributes it has
        for n in builtins.dir(o):
            if C().decide(core.zb(veq(name, n))):
                return builtins.getattr(o, n)
        if d:
            return d[0]
        raise AttributeError('attribute')
    if name == '__dict__' and not isinstance(o, type) and not isinstance(o, (Model, Sym, Rope, PList)):
        pass
    if isinstance(o, (SymNum, SymBool)) and not isinstance(o, SymEnum):
        base = {SymInt: int, SymBool: bool, SymReal: float}.get(type(o), object)
        if not hasattr(base, name):
            if d: return d[0]
            raise AttributeError("%r object has no attribute %r" % (base.__name__, name))
        if name not in SYMNUM_OK:
            raise Unsupported('attribute %s of a symbolic number' % name)
    if isinstance(o, Rope):
        base = str if isinstance(o, SymStr) else bytes
        if not hasattr(base, name) or (name not in type(o).__dict__ and name not in Rope.__dict__):
            if not hasattr(base, name):
                if d: return d[0]
                raise AttributeError("%r object has no attribute %r" % (base.__name__, name))
            raise Unsupported('method %s of symbolic text' % name)
    if isinstance(o, Opaque):
        f = o.attrs.get('getattr')
        if f is not None:
            return f(o, name, *d)
        if type(o) not in (Opaque, Obj) and any(name in k.__dict__ for k in type(o).__mro__ if k not in (Opaque, Obj, object)):
            return builtins.getattr(o, name)
        if d: return d[0]
        raise AttributeError('attribute %r of an arbitrary value' % name)
    return builtins.getattr(o, name, *d)

SYMNUM_OK = {'__eq__', '__class__'}

def setattr_(o, name, v):
    if isinstance(name, SymStr):
        d = symattrs(o)
        PDict._put(d, name, v)
        return
    note(o, name)
    builtins.setattr(o, name, v)

def symattrs(o):
    raise Unsupported('setattr with a symbolic name')

def hasattr_(o, name):
    try:
        getattr_(o, name)
        return True
    except AttributeError:
        return False

def callable_(x):
    if isinstance(x, Opaque):
        return bool(x.attrs.get('callable', False))
    return builtins.callable(x)

def abs_(x):
    return x.__abs__() if isinstance(x, SymNum) else builtins.abs(x)

def round_(x, n=None):
    if isinstance(x, SymNum):
        raise Unsupported('round')
    return builtins.round(x, n) if n is not None else builtins.round(x)

def hash_(x):
    if is_symbolic(x):
        raise Unsupported('hash')
    return builtins.hash(x)

def format_builtin(x, spec=''):
    return fmt_field(x, '', spec)

def memoryview_(x):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, bytes):
        return SymBytes.lift(x) if False else x
    return builtins.memoryview(x)

def bytearray_(*a):
    return SymBuf(*a)

class SymBuf(Model, Mut):
    """bytearray"""
    __pyvc_isa__ = (bytearray,)
    def __init__(self, init=b''):
        object.__setattr__(self, 'v', b'')
        if isinstance(init, SymBuf): init = init.v
        if not isinstance(init, (bytes, SymBytes)):
            raise Unsupported('bytearray(%r)' % (init,))
        self._set('v', init)
    def extend(self, b): self._set('v', self.v + (b.v if isinstance(b, SymBuf) else b))
    def __iadd__(self, b):
        self.extend(b); return self
    def __add__(self, b):
        return SymBuf(self.v + b)
    def __getitem__(self, i):
        r = getitem(self.v, i)
        return SymBuf(r) if isinstance(i, slice) else r
    def __delitem__(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and i.step is None:
            self._set('v', getitem(self.v, slice(i.stop, None, None))); return
        raise Unsupported('del bytearray')
    def __len__(self): return len_(self.v)
    def __bool__(self): return bool(self.v)
    def __eq__(self, o): return self.v == (o.v if isinstance(o, SymBuf) else o)
    __hash__ = None
    def decode(self, *a): return callm(self.v, 'decode', *a)

_bytes_old = bytes_
def bytes_(*a, **k):
    if a and isinstance(a[0], SymBuf):
        return a[0].v
    return _bytes_old(*a, **k)

TABLE = {len: len_, isinstance: isinstance_, type: type_, str: str_, repr: repr_, int: int_, float: float_, bool: bool_,
         bytes: bytes_, PList: list_, list: list_, tuple: tuple_, range: range_, zip: zip_, map: map_, filter: filter_,
         enumerate: enumerate_, all: all_, any: any_, sum: sum_, min: minmax(True), max: minmax(False), reversed: reversed_,
         sorted: sorted_, next: next_, iter: iter_, getattr: getattr_, setattr: setattr_, hasattr: hasattr_,
         callable: callable_, abs: abs_, round: round_, hash: hash_, format: format_builtin, print: lambda *a, **k: None,
         memoryview: memoryview_, bytearray: bytearray_}

# ------------------------------------------------------------------ operators
def is_(a, b):
    if a is b:
        return True
    if isinstance(a, SymBool) and isinstance(b, bool):
        return C().decide(a.t) == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return C().decide(b.t) == a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return C().decide(a.t == b.t)
    if isinstance(a, SymEnum) and isinstance(b, enum.Enum) and isinstance(b, a.cls):
        return C().decide(a.t == int(b))
    if isinstance(b, SymEnum) and isinstance(a, enum.Enum) and isinstance(a, b.cls):
        return C().decide(b.t == int(a))
    if isinstance(a, SymEnum) and isinstance(b, SymEnum) and a.cls is b.cls:
        return C().decide(a.t == b.t)
    f = getattr(a, '__pyvc_is__', None)
    if f is not None and not isinstance(a, type):
        return f(b)
    if is_symbolic(a) and is_symbolic(b) and not isinstance(a, tuple):
        raise Unsupported('identity of symbolic values')
    return False

def in_(x, c):
    if isinstance(c, (PDict, PList, Rope)) or isinstance(c, Model):
        return x in c
    if isinstance(c, (str, bytes)):
        if isinstance(x, Rope):
            return (SymStr if isinstance(c, str) else SymBytes).lift(c).__contains__(x)
        return x in c
    if isinstance(c, (dict, set, frozenset, list, tuple)) and type(c).__contains__ in (dict.__contains__, set.__contains__, frozenset.__contains__, list.__contains__, tuple.__contains__):
        if not is_symbolic(x) and isinstance(c, (dict, set, frozenset)) :
            try:
                if x in c: return True
            except Unsupported:
                pass
            return False
        for v in c:
            if v is x:
                return True
            e = veq(v, x)
            if e is True or (e is not False and C().decide(core.zb(e))):
                return True
        return False
    return x in c

def getitem(v, i):
    if isinstance(i, slice) and isinstance(v, (bytes, str)) and any(isinstance(x, SymInt) for x in (i.start, i.stop)):
        return (SymStr if isinstance(v, str) else SymBytes).lift(v)[i]
    if isinstance(v, (bytes, str)) and isinstance(i, SymInt):
        return (SymStr if isinstance(v, str) else SymBytes).lift(v)[i]
    if isinstance(v, (list, tuple)) and isinstance(i, SymInt):
        return PList.of(v)[i]
    if isinstance(v, dict) and not isinstance(v, PDict) and is_symbolic(i):
        for k in v:
            if C().decide(core.zb(veq(k, i))):
                return v[k]
        raise KeyError(i)
    if isinstance(v, (Sym, Opaque)):
        raise TypeError('object is not subscriptable')
    return v[i]

def mod(a, b):
    if isinstance(a, (str, SymStr)) and not isinstance(a, SymNum):
        return percent(a, b)
    if isinstance(a, bytes):
        if anysym((b,), {}):
            raise Unsupported('bytes %%')
        return a % b
    return a % b

def percent(f, args):
    if isinstance(f, SymStr):
        raise Unsupported('symbolic format string')
    if isinstance(args, PDict):
        raise Unsupported('%% with mapping')
    if not isinstance(args, tuple):
        args = (args,)
    out = SymStr()
    i = 0
    ai = 0
    buf = ''
    while i < len(f):
        ch = f[i]
        if ch != '%':
            buf += ch
            i += 1
            continue
        i += 1
        if i >= len(f):
            raise ValueError('incomplete format')
        spec = ''
        while f[i] in '-+ #0123456789.':
            spec += f[i]; i += 1
        conv = f[i]
        i += 1
        if conv == '%':
            buf += '%'
            continue
        if ai >= len(args):
            raise TypeError('not enough arguments for format string')
        a = args[ai]; ai += 1
        if not (is_symbolic(a) or isinstance(a, (PList, PDict)) or isinstance(getattr(type(a), '__str__', None), types.FunctionType)):
            buf += ('%' + spec + conv) % (a,)
            continue
        if conv in 'di':
            if not isinstance(a, SymNum) and not isinstance(a, SymBool):
                raise TypeError('%d format: a real number is required')
            s = istr(int_(a))
        elif conv == 's':
            s = str_(a)
        elif conv == 'r':
            s = repr_(a)
        else:
            s = text_of(a)
        if spec:
            s = text_of(a)
        out = SymStr.lift(out + buf + s) if True else out
        buf = ''
    if ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    r = SymStr.lift(out) + buf if buf else out
    return r.low() if isinstance(r, SymStr) else r

def fmt_field(v, conv, spec):
    if conv in ('r', 'a'):
        v = repr_(v)
    elif conv == 's':
        v = str_(v)
    if spec:
        if is_symbolic(v) or isinstance(v, (PList, PDict)) or is_symbolic(spec):
            if isinstance(v, SymInt) and spec in ('d',):
                return istr(v)
            if isinstance(v, SymStr) and spec in ('s',):
                return v
            c = C()
            key = ('fmt', spec if isinstance(spec, str) else 'sym')
            if isinstance(v, SymInt):
                f = sym.guf('fmtint_%s' % (spec if isinstance(spec, str) else '?'), I, S)
                return SymStr.atom(f(v.t))
            return SymStr.atom(c.fresh('fmt', S))
        return builtins.format(v, spec)
    return str_(v)

def format_(f, *a, **k):
    """str.format"""
    if isinstance(f, SymStr):
        raise Unsupported('symbolic format string')
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out = out + lit
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(a):
                raise IndexError('Replacement index %d out of range for positional args tuple' % first)
            v = a[first]
        else:
            v = k[first]
        for isattr, nm in rest:
            v = getattr_(v, nm) if isattr else getitem(v, nm)
        if spec and '{' in spec:
            spec = format_(spec, *a, **k)
        out = out + fmt_field(v, conv or '', spec or '')
    return out

def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)

def fstr(*parts):
    out = ''
    for v, conv, spec in parts:
        if conv is None:
            out = out + v
        else:
            out = out + fmt_field(v, {-1: '', 115: 's', 114: 'r', 97: 'a'}[conv], spec)
    return out

def join_(sep, it):
    p = symiter(it)
    tx = SymBytes if isinstance(sep, (bytes, SymBytes)) else SymStr
    if isinstance(p, PList) and not p.concrete():
        if tx.lift(sep).parts:
            return join_sep(sep, p, tx)
        if any(isinstance(x, loops.Pieces) for x in p.parts):
            r = loops.joined(p.parts, tx)
            if r is not None:
                return r.low()
        return PRE().join0(p, b'' if tx is SymBytes else '')
    out = tx()
    first = True
    for x in (p.vals() if isinstance(p, PList) else native_iter(p)):
        if isinstance(x, SymBuf):
            x = x.v
        l = tx.lift(x)
        if l is None:
            raise TypeError('sequence item: expected %s instance, %s found' % ('bytes' if tx is SymBytes else 'str', type_(x).__name__))
        if not first:
            out = tx.lift(out + sep)
        first = False
        out = tx.lift(out + l)
    return out.low()

class JoinVal(object):
    """text that is sep.join(list): kept as such so that splitting gives the list back"""

def join_sep(sep, p, tx):
    c = C()
    joins = c.extra.setdefault('joins', {})
    for t, s0, q in list(joins.values()):
        # the same texts joined again
        if s0 == sep:
            cheap = c.extra.get('cheap')
            c.extra['cheap'] = False
            try:
                f = containers.seq_eq_formula(q, p)
            finally:
                c.extra['cheap'] = cheap
            if f is not None and z3.is_true(f):
                return tx.atom(t)
    t = c.fresh('join', S)
    r = tx.atom(t)
    joins[t.get_id()] = (t, sep, PList(p))
    core._keep.append(t)
    return r

def split_all(rope, sep):
    c = C()
    if isinstance(sep, str) and not is_symbolic(rope):
        return PList.of(rope.split(sep))
    if len(rope.parts) == 1 and isinstance(rope.parts[0], Slc) and rope.parts[0].whole():
        j = c.extra.get('joins', {}).get(rope.parts[0].base.get_id())
        if j is not None and j[1] == sep:
            j = j[1:]
            # no element may contain the separator, and there is at least one
            tx = type(rope)
            ok = c.entails(j[1].zlen() >= 1)
            for p in j[1].parts:
                if not ok:
                    break
                snap = c.mark()
                if p[0] == 's':
                    i = z3.Const(c.name('ji'), I)
                    c.facts.append(z3.And(i >= 0, i < p[2]))
                    c.instantiate(i)
                    e = p[1](i)
                else:
                    e = p[1]
                ok = c.entails(z3.Not(z3.Contains(tx.lift(e).term(), sym.zstr(sep if isinstance(sep, str) else sep.decode('latin-1')))))
                if not ok and __import__('os').environ.get('PYVC_DEBUG') == '3':
                    print('SPLIT', e)
                    for f in core.relevant(c.facts, [tx.lift(e).term()]): print('   ', f)
                c.undo(snap)
            if ok:
                return PList(j[1])
    h = c.extra.get('split_hook')
    if h is not None:
        return h(rope, sep)
    t = rope.term()
    memo = c.extra.setdefault('splits', {})
    key = (type(rope).__name__, t.get_id(), sep) if not is_symbolic(sep) else None
    if key in memo:
        return PList(memo[key][1])
    f = c.fresh('split', z3.ArraySort(I, S))
    n = c.fresh('splitn', I)
    c.assume(n >= 1)
    core._keep.append(t)
    def el(i):
        x = z3.Select(f, i)
        return SymStr.atom(x) if isinstance(rope, SymStr) else SymBytes.atom(x)
    if key is not None:
        sp = sym.zstr(sep if isinstance(sep, str) else sep.decode('latin-1'))
        c.foralls.append(lambda i: c.assume(z3.Not(z3.Contains(z3.Select(f, i), sp))))
    r = PList.seg(el, n)
    if key is not None:
        memo[key] = (t, PList(r))
    return r

def encode_(s, coding='utf-8', errors='strict'):
    return s.encode(coding, errors)

def startswith_(s, pre, *r):
    if is_symbolic(pre):
        return type(SymStr.lift(s) or SymBytes.lift(s)).lift(s).startswith(pre, *r)
    return s.startswith(pre, *r)

def _native(name):
    def f(s, *a, **k):
        if anysym(a, k):
            l = (SymStr if isinstance(s, str) else SymBytes).lift(s)
            m = getattr(l, name, None)
            if m is None:
                raise Unsupported('%s.%s with symbolic arguments' % (type(s).__name__, name))
            return m(*a, **k)
        r = getattr(s, name)(*a, **k)
        if type(r) is list:
            return PList.of(r)
        return r
    return f

STRM = {n: _native(n) for n in dir(str) + dir(bytes) if not n.startswith('__')}
STRM['format'] = format_
STRM['join'] = join_

_pre = None
def PRE():
    """library functions over symbolic lists, written in Python and instrumented like the code under verification"""
    global _pre
    if _pre is None:
        from .instrument import instrument
        import os
        p = os.path.join(os.path.dirname(__file__), 'prelude.py')
        code = instrument(open(p).read(), 'pyvc.prelude', p)
        g = make_globals('pyvc.prelude', p)
        exec(code, g)
        _pre = types.SimpleNamespace(**{k: v for k, v in g.items() if isinstance(v, types.FunctionType)})
    return _pre

def make_globals(name, file):
    b = dict(builtins.__dict__)
    b['dict'] = PDict
    b['list'] = PList
    return {'__name__': name, '__file__': file, '__builtins__': b, '_rt': sys.modules[__name__], '_locals': builtins.locals,
            '_slice': builtins.slice}

_spec = None
def SPEC():
    """scenario code of the contracts (specs.py), instrumented"""
    global _spec
    if _spec is None:
        from .instrument import instrument
        import os
        p = os.path.join(os.path.dirname(__file__), 'specs.py')
        g = make_globals('pyvc.specs', p)
        exec(instrument(open(p).read(), 'pyvc.specs', p), g)
        _spec = types.SimpleNamespace(**{k: v for k, v in g.items() if isinstance(v, types.FunctionType)})
    return _spec
