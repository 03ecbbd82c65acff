"""lists and dictionaries with concrete and symbolic (indexed, unbounded) segments"""
import z3
from . import core, sym
from .core import Unsupported
from .sym import C, I, S, SymInt, SymBool, SymStr, SymBytes, SymReal, SymEnum, Sym, Rope, mkint, mkbool, zi

class Opaque(object):
    """an arbitrary object known only by identity, which is also its equality (z3 constant of an uninterpreted sort)"""
    VAL = z3.DeclareSort('Val')
    __slots__ = ('t', 'attrs', '__weakref__')
    def __init__(self, t):
        self.t = t
        self.attrs = {}
    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.t == o.t)
        return False
    def __ne__(self, o):
        return sym.negate(self.__eq__(o))
    def __hash__(self):
        raise Unsupported('hash of an opaque value')
    def __repr__(self):
        return '<Opaque %s>' % self.t
    def model(self, m):
        return str(m.eval(self.t, model_completion=True))

U_OBJEQ = z3.Function('objeq', Opaque.VAL, Opaque.VAL, z3.BoolSort())
U_TRUTHY = z3.Function('truthy', Opaque.VAL, z3.BoolSort())
core.GLOBAL_UFS.update(('objeq', 'truthy'))

class Obj(Opaque):
    """an arbitrary object with arbitrary equality and truth value"""
    __slots__ = ()
    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(z3.Or(self.t == o.t, U_OBJEQ(self.t, o.t)))
        return False
    def __ne__(self, o):
        return sym.negate(self.__eq__(o))
    def __bool__(self):
        return C().decide(U_TRUTHY(self.t), 'truth value')
    __hash__ = Opaque.__hash__

def subst(v, *m):
    """substitute z3 constants inside a value"""
    if isinstance(v, Rope):
        return v.subst(*m).low()
    if isinstance(v, SymInt):
        return mkint(z3.substitute(v.t, *m))
    if isinstance(v, SymBool):
        return mkbool(z3.substitute(v.t, *m))
    if isinstance(v, SymReal):
        return SymReal(z3.substitute(v.t, *m))
    if isinstance(v, SymEnum):
        return SymEnum(v.cls, z3.substitute(v.t, *m))
    if isinstance(v, Opaque):
        return type(v)(z3.substitute(v.t, *m))
    if isinstance(v, tuple):
        r = [subst(x, *m) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, PList):
        r = PList()
        r.parts = [('v', subst(p[1], *m)) if p[0] == 'v' else
                   ('s', (lambda f: lambda i: subst(f(i), *m))(p[1]), z3.substitute(p[2], *m), p[3]) for p in v.parts]
        return r
    f = getattr(v, '__pyvc_subst__', None)
    if f is not None and not isinstance(v, type):
        return f(*m)
    return v

def mentions(v, names):
    """does value v mention one of the z3 names?"""
    if isinstance(v, Rope):
        return any(bool(core.ast_vars(p.term()) & names) for p in v.parts)
    if isinstance(v, (Sym, Opaque)):
        return bool(core.ast_vars(v.t) & names)
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    if isinstance(v, PList):
        return any((p[0] == 'v' and mentions(p[1], names)) or (p[0] == 's' and bool(core.ast_vars(p[2]) & names)) for p in v.parts)
    return False

def is_symbolic(v):
    return isinstance(v, (Sym, Rope, Opaque)) or (isinstance(v, tuple) and any(is_symbolic(x) for x in v))

def veq(a, b):
    """z3/py truth of a == b for values (python bool or z3 Bool)"""
    r = a == b
    if isinstance(r, SymBool):
        return r.t
    if r is NotImplemented:
        return False
    return bool(r)

class Mut(object):
    """base of engine objects with tracked state; state attributes are changed through _set only"""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        c = core.CUR
        if c is not None:
            c.ser(o)        # known to exist before any loop entered later
        return o
    def _set(self, attr, value):
        c = core.CUR
        if c is not None:
            if c.dead:
                raise core.PathEnd()
            for w in c.mut_watch:
                w.note(self, attr)
        object.__setattr__(self, attr, value)

class PList(Mut):
    """parts: ('v', value) | ('s', fn, n, cond)   -- n >= 0 elements fn(0)..fn(n-1) (those with cond(i))"""
    __pyvc_list__ = True
    def __init__(self, it=()):
        object.__setattr__(self, 'parts', [])
        if isinstance(it, PList):
            self.parts = list(it.parts)
        elif it != ():
            from . import rt
            self.parts = list(rt.to_plist(it).parts)
    @classmethod
    def of(cls, vals):
        r = PList()
        r.parts = [('v', v) for v in vals]
        return r
    @classmethod
    def seg(cls, fn, n, cond=None):
        r = PList()
        r.parts = [('s', fn, zi(n), cond)]
        return r
    def concrete(self):
        return all(p[0] == 'v' for p in self.parts)
    def vals(self):
        if not self.concrete():
            raise Unsupported('symbolic list used where a concrete one is needed')
        return [p[1] for p in self.parts]
    def __repr__(self):
        return 'PList(%s)' % ', '.join(repr(p[1]) if p[0] == 'v' else 'seg(%s)' % p[2] for p in self.parts)
    def zlen(self):
        t = z3.IntVal(sum(1 for p in self.parts if p[0] == 'v'))
        for p in self.parts:
            if p[0] == 's':
                if p[3] is not None:
                    raise Unsupported('length of a filtered symbolic list')
                t = t + p[2]
        return z3.simplify(t)
    def len(self):
        return mkint(self.zlen())
    def __bool__(self):
        C()
        if any(p[0] == 'v' for p in self.parts):
            return True
        if not self.parts:
            return False
        return C().decide(self.zlen() > 0)
    def append(self, v):
        self._set('parts', self.parts + [('v', v)])
    def extend(self, o):
        from . import rt
        self._set('parts', self.parts + list(rt.to_plist(o).parts))
    def __iadd__(self, o):
        self.extend(o)
        return self
    def insert(self, i, v):
        if i == 0:
            self._set('parts', [('v', v)] + self.parts)
        elif self.concrete():
            vs = self.vals(); vs.insert(i, v)
            self._set('parts', [('v', x) for x in vs])
        else:
            raise Unsupported('insert')
    def clear(self):
        self._set('parts', [])
    def copy(self):
        return PList(self)
    def __add__(self, o):
        r = PList(self)
        from . import rt
        r.parts = r.parts + list(rt.to_plist(o).parts)
        return r
    def __radd__(self, o):
        from . import rt
        return rt.to_plist(o) + self
    def pop(self, i=-1):
        if not self.parts:
            raise IndexError('pop from empty list')
        if isinstance(i, int) and i == -1:
            if self.parts[-1][0] == 'v':
                v = self.parts[-1][1]
                self._set('parts', self.parts[:-1])
                return v
            p = self.parts[-1]
            if not C().decide(p[2] > 0):
                self._set('parts', self.parts[:-1])
                return self.pop()
            v = p[1](z3.simplify(p[2] - 1))
            self._set('parts', self.parts[:-1] + [('s', p[1], z3.simplify(p[2] - 1), p[3])])
            return v
        if self.concrete() and isinstance(i, int):
            vs = self.vals()
            v = vs.pop(i)
            self._set('parts', [('v', x) for x in vs])
            return v
        raise Unsupported('pop(%r) of a symbolic list' % (i,))
    def remove(self, x):
        vs = self.vals()
        for n, v in enumerate(vs):
            if v is x or v == x:
                del vs[n]
                self._set('parts', [('v', y) for y in vs])
                return
        raise ValueError('list.remove(x): x not in list')
    def at(self, z):
        """element at in-range z3 index"""
        z = z3.simplify(z)
        off = z3.IntVal(0)
        c = C()
        for n, p in enumerate(self.parts):
            ln = z3.IntVal(1) if p[0] == 'v' else p[2]
            end = z3.simplify(off + ln)
            last = n == len(self.parts) - 1
            if last or c.decide(z < end):
                if p[0] == 'v':
                    return p[1]
                i = z3.simplify(z - off)
                c.instantiate(i)
                return p[1](i)
            off = end
        raise IndexError('list index out of range')
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if self.concrete() and isinstance(i, int):
            return [p[1] for p in self.parts][i]
        z = zi(i)
        if isinstance(i, int) and i == -1 and self.parts and self.parts[-1][0] == 'v':
            return self.parts[-1][1]
        n = self.zlen()
        c = C()
        if c.decide(z < 0):
            z = z + n
        if not c.decide(z3.And(z >= 0, z < n)):
            raise IndexError('list index out of range')
        return self.at(z)
    def __setitem__(self, i, v):
        vs = self.vals()
        vs[i] = v
        self._set('parts', [('v', x) for x in vs])
    def slice(self, s):
        r = PList()
        if self.concrete() and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
            r.parts = [('v', p[1]) for p in self.parts][s]
            return r
        step = 1 if s.step is None else s.step
        n = self.zlen()
        if isinstance(step, int) and step > 1 and s.stop is None and isinstance(s.start, (int, type(None))) and (s.start or 0) >= 0 \
                and len(self.parts) == 1:
            st = s.start or 0
            p = self.parts[0]
            c = C()
            cnt = z3.If(n > st, (n - st + (step - 1)) / step, z3.IntVal(0))
            m = c.fresh('stride', I)
            c.assume(z3.And(m == z3.simplify(cnt), m >= 0))
            fn = p[1]
            r.parts = [('s', lambda i: fn(z3.simplify(i * step + st)), m, None)]
            return r
        if step == 1 and s.start in (None, 0) and isinstance(s.stop, int) and s.stop == -1 and self.parts and self.parts[-1][0] == 'v':
            r.parts = self.parts[:-1]
            return r
        if step == 1 and s.start in (None, 0) and isinstance(s.stop, int) and s.stop == -1 and len(self.parts) == 1:
            p = self.parts[0]
            if not C().decide(p[2] > 0):
                return r
            r.parts = [('s', p[1], z3.simplify(p[2] - 1), None)]
            return r
        if step == 1 and len(self.parts) == 1 and self.parts[0][0] == 's' and self.parts[0][3] is None:
            p = self.parts[0]
            dummy = SymBytes()
            lo = dummy._clamp(s.start, n, z3.IntVal(0))
            hi = dummy._clamp(s.stop, n, n)
            if lo.eq(hi) or not C().decide(lo <= hi):
                return r
            fn = p[1]
            r.parts = [('s', lambda i: fn(z3.simplify(i + lo)), z3.simplify(hi - lo), None)]
            return r
        raise Unsupported('slice %r of a symbolic list' % (s,))
    def __iter__(self):
        C()
        return iter(self.vals())
    def __contains__(self, x):
        for v in self.vals():
            if v is x or v == x:
                return True
        return False
    def __eq__(self, o):
        from . import rt
        if not isinstance(o, (PList, list)):
            return False
        o = rt.to_plist(o)
        r = list_eq(self, o)
        return r
    def __ne__(self, o):
        return sym.negate(self.__eq__(o))
    __hash__ = None
    def index(self, x):
        for n, v in enumerate(self.vals()):
            if v is x or v == x:
                return n
        raise ValueError('not in list')
    def reverse(self):
        self._set('parts', [('v', x) for x in reversed(self.vals())])
    def count(self, x):
        return sum(1 for v in self.vals() if v == x)

def list_eq(a, b):
    """equality of lists: python bool / SymBool; symbolic segments compare by generic element"""
    if a.concrete() and b.concrete():
        va, vb = a.vals(), b.vals()
        if len(va) != len(vb):
            return False
        return conj(veq(x, y) for x, y in zip(va, vb))
    c = C()
    f = seq_eq_formula(a, b)
    if f is None:
        from . import rt
        return rt.PRE().same_lists(a, b)
    return mkbool(f)

def conj(fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        out.append(core.zb(f))
    if not out:
        return True
    return mkbool(z3.And(*out))

def seq_eq_formula(a, b):
    """exists only for provable equality: returns BoolVal(True) when the lists are provably equal, else a length
    disequality formula when lengths provably differ, else None"""
    c = C()
    la, lb = a.zlen(), b.zlen()
    old, c.nofork = c.nofork, True
    try:
        return _seq_eq(c, a, b, la, lb)
    except core.NoFork:
        return None
    finally:
        c.nofork = old

def _seq_eq(c, a, b, la, lb):
    if not c.feasible(la == lb):
        return z3.BoolVal(False)
    if not c.entails(la == lb):
        return None
    i = z3.Const(c.name('ei'), I)
    snap = c.mark()
    c.facts.append(z3.And(0 <= i, i < la))
    ok = True
    try:
        c.instantiate(i)
        off_ok = True
        x = at_noforks(a, i); y = at_noforks(b, i)
        if x is None or y is None:
            ok = False
        else:
            e = veq(x, y)
            ok = e is True or (e is not False and c.entails(e))
    finally:
        c.undo(snap)
    return z3.BoolVal(True) if ok else None

def at_noforks(l, z):
    off = z3.IntVal(0)
    c = C()
    for n, p in enumerate(l.parts):
        ln = z3.IntVal(1) if p[0] == 'v' else p[2]
        end = z3.simplify(off + ln)
        if n == len(l.parts) - 1 or c.entails(z < end):
            if p[0] == 'v':
                return p[1] if ln is not None and len(l.parts) == 1 else None
            return p[1](z3.simplify(z - off))
        if not c.entails(z >= end):
            return None
        off = end
    return None

MISSING = object()

def same_key(a, b):
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Rope) and isinstance(b, Rope) and len(a.parts) == len(b.parts):
        return all(x.same(y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.t.eq(b.t)
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return zi(a).eq(zi(b))
    return False

class Bulk(object):
    """n indexed entries keyfn(i) -> valfn(i), those with cond(i), minus `removed` indices, with overrides.
    keys are pairwise distinct if inj; `absent` lists keys known not to be there"""
    def __init__(self, n, keyfn, valfn, cond=None, inj=True, absent=(), removed=(), over=(), ident=None, under=False):
        self.n = z3.simplify(zi(n)); self.keyfn = keyfn; self.valfn = valfn; self.cond = cond; self.inj = inj
        self.absent = list(absent); self.removed = list(removed); self.over = list(over)
        self.ident = ident
        self.under = under        # another table of the same dict may have the same keys, and takes precedence: lookups only
        self.memo = None          # lookups so far: (key, index or None), shared by all copies with the same keys
    def clone(self, **kw):
        d = dict(n=self.n, keyfn=self.keyfn, valfn=self.valfn, cond=self.cond, inj=self.inj, absent=self.absent,
                 removed=self.removed, over=self.over, ident=self.ident, under=self.under)
        d.update(kw)
        b = Bulk(**d)
        if b.keyfn is self.keyfn and b.cond is self.cond and b.n.eq(self.n):
            if self.memo is None:
                self.memo = []
            b.memo = self.memo
        return b
    def value(self, j):
        c = C()
        for (oj, v) in reversed(self.over):
            if c.decide(oj == j):
                return v
        return self.valfn(j)
    def valid(self, j):
        f = [0 <= j, j < self.n] + [j != r for r in self.removed]
        if self.cond is not None:
            f.append(core.zb(self.cond(j)))
        return z3.And(*f)
    def find(self, key):
        """fork: index term of the entry with this key, or None"""
        c = C()
        for a in self.absent:
            e = veq(a, key)
            if e is True or (e is not False and c.entails(e)):
                return None
        if self.memo is None:
            self.memo = []
        if self.inj:
            for k2, j2 in self.memo:
                e = same_key(k2, key)
                if e:
                    if j2 is None:
                        return None
                    if any(r.eq(j2) for r in self.removed if hasattr(r, 'eq')):
                        return None
                    if c.entails(self.valid(j2)):
                        return j2
        for i in c.witness:
            e = key_eq(self.keyfn(i), key)
            if e is not False and c.entails(z3.And(self.valid(i), core.zb(e))):
                return i
        j = c.fresh('j', I)
        c.instantiate(j)
        if c.extra.get('injective') and prefix_disjoint(self.keyfn(j), key):
            return None
        e = key_eq(self.keyfn(j), key)
        pres = z3.And(self.valid(j), core.zb(e))
        if e is False or not c.feasible(pres):
            return None
        if not self.inj:
            last = c.fresh('islast', z3.BoolSort())
        if c.choose(2, 'key in map') == 0:
            c.assume(pres)
            self.memo.append((key, j))
            return j
        if not self.removed:
            self.memo.append((key, None))
        self.absent.append(key)
        def none(i, b=self.clone()):
            e = key_eq(b.keyfn(i), key)
            if e is not False:
                c.assume(z3.Not(z3.And(b.valid(i), core.zb(e))))
        c.foralls.append(none)
        return None

def key_eq(a, b):
    """veq of keys; two keys of one arbitrary map are equal iff their indices are"""
    inj = C().extra.get('injective')
    if inj and type(a) is type(b) and isinstance(a, SymStr) and len(a.parts) == len(b.parts) >= 1 and all(p.same(q) for p, q in zip(a.parts[:-1], b.parts[:-1])) \
            and all(type(x.parts[-1]) is sym.Slc and x.parts[-1].whole() for x in (a, b)):
        x, y = a.parts[-1].base, b.parts[-1].base
        if z3.is_app(x) and z3.is_app(y) and x.num_args() == 1 and x.decl().eq(y.decl()) and x.decl().name() in inj:
            return z3.simplify(x.arg(0) == y.arg(0))
    return veq(a, b)

class PDict(Mut):
    """segs: ('e', key, value) | ('b', Bulk); keys are pairwise distinct"""
    __pyvc_dict__ = True
    def __init__(self, *a, **kw):
        object.__setattr__(self, 'segs', [])
        if a:
            if len(a) > 1:
                raise TypeError('dict expected at most 1 argument')
            self._fill(a[0])
        sk = kw.pop('__pyvc_kw__', None)
        for k, v in kw.items():
            self._put(k, v)
        if sk is not None:
            self._fill(sk)
    def _fill(self, o):
        from . import rt
        if isinstance(o, PDict):
            if not self.segs:
                self._set('segs', [s if s[0] == 'e' else ('b', s[1].clone()) for s in o.segs])
                return
            for s in o.segs:
                if s[0] == 'e':
                    self._put(s[1], s[2])
                else:
                    b = s[1].clone()
                    segs = list(self.segs)
                    for n, t in enumerate(segs):
                        if t[0] == 'e':
                            j = b.find(t[1])
                            if j is not None:
                                segs[n] = ('e', t[1], b.value(j))
                                b = b.clone(removed=b.removed + [j])
                        elif not bulk_disjoint(t[1], b):
                            segs[n] = ('b', t[1].clone(under=True))
                    self._set('segs', segs + [('b', b)])
            return
        if isinstance(o, dict):
            for k, v in o.items():
                self._put(k, v)
            return
        if hasattr(o, 'keys') and not isinstance(o, (PList, Rope)):
            for k in o.keys():
                self._put(k, o[k])
            return
        l = rt.to_plist(o)
        if not l.concrete() and (self.segs or len(l.parts) > 1):
            return self._fill(rt.PRE().dict_of(l))
        for p in l.parts:
            if p[0] == 'v':
                pr = p[1]
                kv = list(pr.vals()) if isinstance(pr, PList) else list(pr)
                if len(kv) != 2:
                    raise ValueError('dictionary update sequence element has length %d; 2 is required' % len(kv))
                self._put(kv[0], kv[1])
            else:
                fn = p[1]
                self._set('segs', self.segs + [('b', Bulk(p[2], lambda i: fn(i)[0], lambda i: fn(i)[1], p[3], inj=False))])
    # -- raw operations
    def _find(self, key):
        """('e', pos) | ('b', pos, j) | None"""
        nat = not is_symbolic(key)
        C()
        order = list(enumerate(self.segs))
        if any(s[0] == 'b' and s[1].under for s in self.segs):
            order = [x for x in order if not (x[1][0] == 'b' and x[1][1].under)] + [x for x in reversed(order) if x[1][0] == 'b' and x[1][1].under]
        for n, s in order:
            if s[0] == 'e':
                k = s[1]
                if k is key:
                    return ('e', n)
                if nat and not is_symbolic(k):
                    hash(key)
                    if type(k) in (str, int, bytes, tuple) or type(key) in (str, int, bytes, tuple):
                        if k == key:
                            return ('e', n)
                    elif k == key:
                        return ('e', n)
                    continue
                e = veq(k, key)
                if e is True or (e is not False and C().decide(e, 'same key')):
                    return ('e', n)
            else:
                j = s[1].find(key)
                if j is not None:
                    return ('b', n, j)
        return None
    def _getat(self, w):
        s = self.segs[w[1]]
        if w[0] == 'e':
            return s[2]
        return s[1].value(w[2])
    def _put(self, key, value):
        if not is_symbolic(key):
            hash(key)
        w = self._find(key)
        segs = list(self.segs)
        if w is None:
            segs.append(('e', key, value))
        elif w[0] == 'e':
            segs[w[1]] = ('e', segs[w[1]][1], value)
        else:
            b = segs[w[1]][1]
            segs[w[1]] = ('b', b.clone(over=b.over + [(w[2], value)]))
        self._set('segs', segs)
    def _del(self, w):
        self._plain('deletion from')
        segs = list(self.segs)
        s = segs[w[1]]
        if w[0] == 'e':
            v = s[2]
            del segs[w[1]]
            key = s[1]
            self._set('segs', segs)
            return v
        b = s[1]
        v = b.value(w[2])
        key = b.keyfn(w[2])
        segs[w[1]] = ('b', b.clone(removed=b.removed + [w[2]], absent=b.absent + ([key] if b.inj else [])))
        self._set('segs', segs)
        return v
    # -- dict API
    def __setitem__(self, k, v):
        self._put(k, v)
    def __getitem__(self, k):
        w = self._find(k)
        if w is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._getat(w)
    def __delitem__(self, k):
        w = self._find(k)
        if w is None:
            raise KeyError(k)
        self._del(w)
    def __contains__(self, k):
        return self._find(k) is not None
    def get(self, k, d=None):
        w = self._find(k)
        return d if w is None else self._getat(w)
    def pop(self, k, *d):
        w = self._find(k)
        if w is None:
            if d:
                return d[0]
            raise KeyError(k)
        return self._del(w)
    def setdefault(self, k, d=None):
        w = self._find(k)
        if w is None:
            PDict._put(self, k, d)
            return d
        return self._getat(w)
    def popitem(self, last=True):
        c = C()
        segs = self.segs
        order = list(range(len(segs)))
        if last:
            order.reverse()
        for n in order:
            s = segs[n]
            if s[0] == 'e':
                self._del(('e', n))
                return (s[1], s[2])
            b = s[1]
            if b.cond is not None or len(b.removed) > 2:
                raise Unsupported('popitem of a filtered map')
            j = c.fresh('edge', I)
            if last:
                f = z3.And(b.valid(j), *[z3.And(*[z3.Or(r2 == r, r <= j, True) for r2 in b.removed]) for r in b.removed])
                # j is the largest valid index
                others = z3.Const(c.name('o'), I)
                big = b.n - 1
                for _ in range(len(b.removed)):
                    pass
                ex = lambda t: z3.Or(t < 0, t >= b.n, *[t == r for r in b.removed])
                t0 = b.n - 1
                cand = [b.n - 1 - x for x in range(len(b.removed) + 1)]
            else:
                ex = lambda t: z3.Or(t < 0, t >= b.n, *[t == r for r in b.removed])
                cand = [z3.IntVal(x) for x in range(len(b.removed) + 1)]
            got = None
            for t in cand:
                if c.decide(z3.And(t >= 0, t < b.n, *[t != r for r in b.removed])):
                    got = z3.simplify(t)
                    break
            if got is None:
                continue
            c.instantiate(got)
            k = b.keyfn(got)
            v = self._del(('b', n, got))
            return (k, v)
        raise KeyError('dictionary is empty')
    def move_to_end(self, key, last=True):
        w = self._find(key)
        if w is None:
            raise KeyError(key)
        if w[0] == 'e':
            k = self.segs[w[1]][1]
        else:
            k = self.segs[w[1]][1].keyfn(w[2])
        v = self._del(w)
        e = ('e', k, v)
        self._set('segs', self.segs + [e] if last else [e] + self.segs)
    def update(self, *a, **kw):
        sk = kw.pop('__pyvc_kw__', None)
        if a:
            self._fill(a[0])
        for k, v in kw.items():
            self._put(k, v)
        if sk is not None:
            self._fill(sk)
    def clear(self):
        self._set('segs', [])
    def copy(self):
        r = PDict()
        r.segs = [s if s[0] == 'e' else ('b', s[1].clone()) for s in self.segs]
        return r
    def _plain(self, what):
        if any(s[0] == 'b' and s[1].under for s in self.segs):
            raise Unsupported(what + ' a map made of overlapping maps')
    def _enum(self, f):
        self._plain('iteration over')
        r = PList()
        for s in self.segs:
            if s[0] == 'e':
                r.parts.append(('v', f(s[1], s[2])))
            else:
                b = s[1]
                cond = None
                if b.cond is not None or b.removed:
                    cond = (lambda b: lambda i: z3.And(*([i != x for x in b.removed] + ([core.zb(b.cond(i))] if b.cond is not None else []))))(b)
                if not b.inj and f is not None and False:
                    raise Unsupported('iteration over a possibly duplicated map')
                r.parts.append(('s', (lambda b: lambda i: f(b.keyfn(i), b.value(i)))(b), b.n, cond))
        return r
    def items(self):
        return self._enum(lambda k, v: (k, v))
    def keys(self):
        return self._enum(lambda k, v: k)
    def values(self):
        return self._enum(lambda k, v: v)
    def zlen(self):
        self._plain('size of')
        t = z3.IntVal(0)
        for s in self.segs:
            if s[0] == 'e':
                t = t + 1
            else:
                if s[1].cond is not None or not s[1].inj:
                    raise Unsupported('size of a filtered map')
                t = t + s[1].n - len(s[1].removed)
        return z3.simplify(t)
    def plen(self):
        return mkint(self.zlen())
    def __bool__(self):
        C()
        if any(s[0] == 'e' for s in self.segs):
            return True
        if not self.segs:
            return False
        return C().decide(self.zlen() > 0)
    def __iter__(self):
        C()
        return iter(self.keys().vals())
    def concrete(self):
        return all(s[0] == 'e' for s in self.segs)
    def __repr__(self):
        return '%s{%s}' % (type(self).__name__, ', '.join('%r: %r' % (s[1], s[2]) if s[0] == 'e' else 'bulk(%s)' % s[1].n for s in self.segs))
    def __eq__(self, o):
        if isinstance(o, dict):
            o = PDict(o)
        if not isinstance(o, PDict):
            return False
        return mkbool(core.zb(dict_eq(self, o)))
    def __ne__(self, o):
        return sym.negate(self.__eq__(o))
    __hash__ = None
    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r
    def __or__(self, o):
        r = self.copy(); r.update(o); return r

def prefix_disjoint(ka, kb):
    """kb begins with a literal that ka is known not to begin with"""
    ka, kb = sym.SymStr.lift(ka) if isinstance(ka, (str, sym.SymStr)) else None, sym.SymStr.lift(kb) if isinstance(kb, (str, sym.SymStr)) else None
    if ka is None or kb is None or not kb.parts or not isinstance(kb.parts[0], sym.Lit):
        return False
    p = kb.parts[0]
    g = z3.Not(z3.PrefixOf(p.term() if hasattr(p, 'term') else z3.StringVal(p.v), ka.term()))
    g = z3.simplify(g)
    return any(z3.simplify(f).eq(g) for f in C().facts)

def bulk_disjoint(a, b):
    c = C()
    i = c.fresh('i', I); j = c.fresh('j', I)
    c.instantiate(i); c.instantiate(j)
    ka, kb = a.keyfn(i), b.keyfn(j)
    if prefix_disjoint(ka, kb) or prefix_disjoint(kb, ka):
        return True
    e = veq(ka, kb)
    return e is False or not c.feasible(z3.And(a.valid(i), b.valid(j), core.zb(e)))

def dict_eq(a, b):
    """z3 Bool or python bool: provable (generic-element) equality of two maps.  Only True / False / formula over
    explicit entries; raises Unsupported when it cannot be expressed"""
    c = C()
    fs = []
    ea = [s for s in a.segs if s[0] == 'e']; eb = [s for s in b.segs if s[0] == 'e']
    ba = [s[1] for s in a.segs if s[0] == 'b']; bb = [s[1] for s in b.segs if s[0] == 'b']
    a._plain('comparison of')
    b._plain('comparison of')
    if len(ba) != len(bb):
        raise Unsupported('comparison of maps with different structure')
    used = []
    if len(ea) != len(eb):
        if not ba:
            return False
        raise Unsupported('comparison of maps with different structure')
    for s in ea:
        hit = None
        for n, t in enumerate(eb):
            if n in used:
                continue
            e = veq(s[1], t[1])
            if e is True or (e is not False and c.entails(e)):
                hit = n
                break
        if hit is None:
            return False
        used.append(hit)
        fs.append(veq(s[2], eb[hit][2]))
    for x, y in zip(ba, bb):
        if not bulk_eq(x, y):
            return False
    return conj(fs)

def bulk_eq(x, y):
    c = C()
    if not c.entails(x.n == y.n):
        return False
    i = z3.Const(c.name('di'), I)
    snap = c.mark()
    c.facts.append(z3.And(0 <= i, i < x.n))
    try:
        c.instantiate(i)
        va, vb = x.valid(i), y.valid(i)
        if not c.entails(va == vb):
            return False
        c.facts.append(va)
        e = veq(x.keyfn(i), y.keyfn(i))
        if not (e is True or (e is not False and c.entails(e))):
            return False
        e = veq(x.value(i), y.value(i))
        return e is True or (e is not False and c.entails(e))
    finally:
        c.undo(snap)

def sym_map(name, n=None, key='str', val='str'):
    """an arbitrary map (unbounded number of entries, pairwise distinct keys) of text to text"""
    c = C()
    nm = c.name(name)
    n = z3.Const(nm + '.n', I)
    c.assume(n >= 0)
    sorts = {'str': S, 'int': I, 'val': Opaque.VAL}
    K = z3.Function(nm + '.key', I, sorts[key]); V = z3.Function(nm + '.val', I, sorts[val])
    IX = z3.Function(nm + '.idx', sorts[key], I)
    for f in (K, V, IX):
        core.GLOBAL_UFS.add(f.name())
    wrap = {'str': SymStr.atom, 'int': mkint, 'val': Opaque}
    def inst(i):
        c.assume(IX(K(i)) == i)
    c.foralls.append(inst)
    c.extra.setdefault('injective', {})[K.name()] = True
    b = Bulk(n, lambda i: wrap[key](K(i)), lambda i: wrap[val](V(i)), ident=nm)
    r = PDict()
    r.segs = [('b', b)]
    return r, K, V, n

def sym_list(name, kind='str'):
    c = C()
    nm = c.name(name)
    n = z3.Const(nm + '.n', I)
    c.assume(n >= 0)
    sorts = {'str': S, 'int': I, 'val': Opaque.VAL}
    wrap = {'str': SymStr.atom, 'int': mkint, 'val': Opaque}
    V = z3.Function(nm + '.at', I, sorts[kind])
    core.GLOBAL_UFS.add(V.name())
    return PList.seg(lambda i: wrap[kind](V(i)), n), V, n
