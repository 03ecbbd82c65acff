"""loop runtime: concrete unrolling, and loop cuts with inferred (Houdini) and contract-supplied invariants"""
import z3
from . import core, sym
from .core import Unsupported, Restart, PathEnd, Obligation
from .sym import C, I, S, SymInt, SymBool, SymStr, SymBytes, SymReal, SymEnum, Sym, Rope, Slc, Lit, Cat, mkint, mkbool, zi
from .containers import PList, PDict, Bulk, Opaque, subst, veq, conj, is_symbolic, Mut

UNROLL = 6

class Unbound(object):
    def __repr__(self): return '<unbound>'
UNB = Unbound()

class Poison(object):
    """value of a loop-carried variable the engine cannot describe; any use is Unsupported"""
    def __init__(self, why): object.__setattr__(self, 'why', why)
    def _u(self, *a, **k):
        raise Unsupported('use of undescribed loop-carried value (%s)' % object.__getattribute__(self, 'why'))
    __getattr__ = __setattr__ = __bool__ = __eq__ = __ne__ = __call__ = __iter__ = __getitem__ = __add__ = __radd__ = __len__ = __lt__ = __gt__ = __le__ = __ge__ = __hash__ = __contains__ = _u

class Shape(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
    def __repr__(self):
        return self.kind

class LoopInfo(object):
    def __init__(self, key):
        self.key = key
        self.mode = None
        self.leaves = {}          # leaf id -> Shape
        self.heap = []            # ordered heap leaf ids
        self.dropped = set()
        self.known = set()
        self.defs = {}            # facts about specification functions used in the body
        self.steps = {}           # signature -> None
        self.effects = {}         # leaf -> {path signature: effect or None}
        self.changes = 0
        self.peq = {}             # phase -> {integer: terms it is equal to when the phase is entered}

def loopinfo(key):
    c = C()
    c.loop_pos.setdefault(key, len(c.choices))
    c.sess.entered.add(key)
    li = c.sess.loopinfo.get(key)
    if li is None:
        li = c.sess.loopinfo[key] = LoopInfo(key)
    return li

def restart(li, why):
    li.changes += 1
    if li.changes > 80:
        raise Unsupported('loop %s: summarization does not converge (%s)' % (li.key, why))
    c = C()
    c.dead = True
    import os, sys
    if os.environ.get('PYVC_DEBUG'):
        sys.stderr.write('restart %s: %s\n' % (li.key, why))
    e = Restart(why)
    e.key = li.key
    raise e

def drop_stale(sess):
    """forget paths of loop bodies that the last complete pass did not take; True if there were any"""
    some = False
    for li in sess.loopinfo.values():
        if li.key not in sess.entered:
            continue
        for sg in [s for s in li.steps if (li.key, 'step', s) not in sess.visited]:
            del li.steps[sg]
            some = True
        for leaf, d in li.effects.items():
            for s in [s for s in d if (li.key, leaf, s) not in sess.visited]:
                del d[s]
                some = True
    return some

class Watch(object):
    def __init__(self, serial):
        self.serial = serial
        self.seen = {}
    def note(self, obj, attr):
        c = core.CUR
        e = c.objs.get(id(obj))
        if e is None or e[0] > self.serial:
            if e is None:
                c.ser(obj)
            return
        self.seen[(e[0], attr)] = obj

def same_value(a, b):
    if a is b:
        return True
    if type(a) is type(b) and isinstance(a, (int, str, bytes, float, bool, type(None))):
        return a == b
    if isinstance(a, (Rope, str, bytes)) and isinstance(b, (Rope, str, bytes)):
        r = (a == b)
        return r is True or (isinstance(r, SymBool) and C().entails(r.t))
    if isinstance(a, (Sym, int, bool)) and isinstance(b, (Sym, int, bool)):
        if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
            return False
        r = (a == b)
        return r is True or (isinstance(r, SymBool) and C().entails(r.t))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return C().entails(a.t == b.t)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, PList) and isinstance(b, PList):
        return same_parts(a.parts, b.parts)
    return False

def same_parts(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x[0] != y[0]:
            return False
        if x[0] == 'v' and not same_value(x[1], y[1]):
            return False
        if x[0] == 's' and not (x[1] is y[1] and C().entails(x[2] == y[2])):
            return False
    return True

class Pieces(tuple):
    """a segment of a list: some number of byte pieces, of which only the concatenation (.rope) is known"""

def joined(parts, cls):
    """concatenation of the texts of a list, or None"""
    r = cls()
    for p in parts:
        x = p.rope if isinstance(p, Pieces) else cls.lift(p[1]) if p[0] == 'v' else None
        if x is None or not isinstance(x, cls):
            return None
        r = cls(tuple(r.parts) + tuple(x.parts))
    return coalesce(r)

def only_slice(r, base=None):
    return r is not None and len(r.parts) == 1 and type(r.parts[0]) is Slc and z3.is_const(r.parts[0].base) and (base is None or r.parts[0].base.eq(base))

def same_segs(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x[0] != y[0]:
            return False
        if x[0] == 'e' and not (same_value(x[1], y[1]) and same_value(x[2], y[2])):
            return False
        if x[0] == 'b' and x[1] is not y[1]:
            p, q = x[1], y[1]
            if p.keyfn is q.keyfn and p.valfn is q.valfn and p.cond is q.cond and p.removed == q.removed and p.over == q.over and p.n.eq(q.n):
                continue
            return False
    return True

def known_object(v, serial):
    """serial of an object that exists since before the loop"""
    e = core.CUR.objs.get(id(v))
    return e[0] if e is not None and e[1] is v and e[0] <= serial else None

def signature(v, serial=None):
    if v is UNB: return 'unbound'
    if v is None or isinstance(v, bool): return repr(v)
    if isinstance(v, (SymBool,)): return 'bool'
    if isinstance(v, (int, SymInt)): return 'int'
    if isinstance(v, (float, SymReal)): return 'real'
    if isinstance(v, (str, SymStr)): return 'str'
    if isinstance(v, (bytes, SymBytes)): return 'bytes'
    if isinstance(v, SymEnum): return 'enum:' + v.cls.__name__
    if isinstance(v, tuple): return '(%s)' % ','.join(signature(x, serial) for x in v)
    if isinstance(v, PDict):
        return '%s{%s}' % (type(v).__name__, ','.join(sorted('%s:%s' % (s[1] if isinstance(s[1], str) else '?', signature(s[2], serial)) if s[0] == 'e' else '*' for s in v.segs)))
    if isinstance(v, Opaque): return 'opq:' + type(v).__name__
    k = known_object(v, serial)
    if k is not None:
        return 'old:%s@%d' % (type(v).__name__, k)
    return 'new:' + type(v).__name__

def freshen(v, base, serial, sig=None):
    """an arbitrary value of the same shape as v"""
    c = C()
    if v is UNB or v is None or isinstance(v, bool): return v
    if isinstance(v, SymBool): return mkbool(c.fresh(base, sym.B))
    if isinstance(v, SymEnum):
        t = c.fresh(base, I)
        c.assume(z3.Or(*[t == int(m) for m in v.cls]))
        return SymEnum(v.cls, t)
    if isinstance(v, (int, SymInt)) : return mkint(c.fresh(base, I))
    if isinstance(v, (float, SymReal)): return SymReal(c.fresh(base, sym.R))
    if isinstance(v, (str, SymStr)): return SymStr.atom(c.fresh(base, S))
    if isinstance(v, (bytes, SymBytes)): return SymBytes.atom(c.fresh(base, S))
    if isinstance(v, tuple): return tuple(freshen(x, base, serial) for x in v)
    if isinstance(v, Opaque): return type(v)(c.fresh(base, v.t.sort()))
    if sig is not None and sig.startswith('old:'):
        o = c_obj(int(sig.rsplit('@', 1)[1]))
        return o if o is not None else Poison('%s: %s' % (base, sig))
    if isinstance(v, PDict) and v.concrete():
        r = type(v)()
        r.segs = [('e', s[1], freshen(s[2], base + '.' + str(s[1]), serial)) for s in v.segs]
        return r
    if not isinstance(v, PDict) and known_object(v, serial) is not None:
        return v
    return Poison('%s: %s' % (base, type(v).__name__))

def phase_ints(v):
    """the entries of a small table of integers"""
    if isinstance(v, PDict) and v.concrete() and v.segs and all(isinstance(s[1], str) and isinstance(s[2], (int, SymInt)) and not isinstance(s[2], bool) for s in v.segs):
        return [(s[1], s[2]) for s in v.segs]
    return None

def coalesce(r):
    """adjacent pieces of one text become one piece"""
    if r is None or len(r.parts) < 2:
        return r
    out = []
    for p in r.parts:
        if out and isinstance(p, Slc) and type(out[-1]) is Slc and type(p) is Slc and out[-1].base.eq(p.base) and C().entails(out[-1].hi == p.lo):
            out[-1] = Slc(p.base, out[-1].lo, p.hi)
        else:
            out.append(p)
    return type(r)(tuple(out)) if len(out) != len(r.parts) else r

class LoopBase(object):
    """one dynamic execution of a loop statement on one path"""
    def __init__(self, lid, names, live):
        c = C()
        n = c.counters.get('loop:' + lid, 0)
        c.counters['loop:' + lid] = n + 1
        self.key = '%s#%d~%x' % (lid, n, 0 if c.extra.get('one_iteration') and not c.loops else c.shape)
        self.names = names
        self.live = live
        self.info = loopinfo(self.key)
        self.vars = {}
        self.cutting = False
        self.count = 0
        self.open = False
        self.k = None

    # ---------------------------------------------------------------- cut
    def cut_head(self, loc):
        c = C()
        self.cutting = True
        self.k = c.fresh('k', I)
        c.assume(self.k >= 0)
        self.open = True
        self.entry = {}
        self.head = {}
        self.havoced = set()
        li = self.info
        c.loops.append(self)
        self.watch = Watch(c.serial)
        for n in self.names:
            v = loc.get(n, UNB)
            self.entry[('l', n)] = v
        for h in li.heap:
            o = c_obj(h[1])
            if o is None or not hasattr(o, h[2]):
                continue
            self.entry[h] = getattr(o, h[2])
        self.ints = {}      # leaf-name -> (entry term, head term)
        self.phases = {}    # leaf with several kinds of values -> the kind at the head ('' = its value at entry)
        self.pints = {}     # integers that only exist in this phase -> head term
        for leaf, v0 in list(self.entry.items()):
            if leaf[0] == 'l' and leaf[1] not in self.live:
                self.head[leaf] = UNB
                self.vars[leaf[1]] = UNB
                continue
            sh = li.leaves.get(leaf)
            hv = None
            hav = c.extra.get('loop_havoc')
            if hav is not None and leaf[0] == 'h':
                # a contract that describes each iteration from an arbitrary state
                hv = hav(self, c_obj(leaf[1]), leaf[2])
                if hv is not None:
                    self.havoced.add(leaf)
            if hv is None:
                hv = self.make_head(leaf, v0, sh)
            self.head[leaf] = hv
            if leaf[0] == 'l':
                self.vars[leaf[1]] = hv
            else:
                object.__setattr__(c_obj(leaf[1]), leaf[2], hv)
        self.snap = len(c.facts)
        # invariants
        one = self.one = bool(c.extra.get('one_iteration'))     # a contract for one arbitrary iteration: nothing is remembered of earlier ones
        self.cands = [] if one else self.candidates()
        zero = z3.IntVal(0)
        e0 = {n: e for n, (e, h) in self.ints.items()}
        left = [(name, f(e0, zero)) for name, f in self.cands if name not in li.dropped]
        if not (left and c.entails(z3.And(*[g for n, g in left]))):
            for name, init in left:
                if not c.entails(init):
                    li.dropped.add(name)
                    if name in li.known:
                        restart(li, 'invariant %s not established' % name)
        for name, init in left:
            if name not in li.dropped:
                c.sess.obligations.append(Obligation('loop %s: invariant %s established' % (self.key, name), 0, 'discharged', 'z3', 0))
        env = {n: h for n, (e, h) in self.ints.items()}
        inv = []
        for name, f in self.cands:
            if name in li.dropped:
                continue
            li.known.add(name)
            g = f(env, self.k)
            inv.append(g)
            c.assume(g)
        self.inv = inv
        if self.phases and not one:
            # invariants that hold in one phase (one combination of kinds of the loop-carried values) of the loop
            ph0 = self.phaselabel({n: '' for n in self.phases})
            ph = self.phaselabel(self.phases)
            for name, f in self.phase_candidates(ph0):
                if name not in li.dropped and not c.entails(f(e0, zero)):
                    li.dropped.add(name)
                    if name in li.known:
                        restart(li, 'invariant %s not established' % name)
            env.update(self.pints)
            for name, f in self.phase_candidates(ph):
                if name not in li.dropped:
                    li.known.add(name)
                    c.assume(f(env, self.k))
        self.c0 = len(c.facts)
        self.d0 = len(c.defs)
        c.mut_watch.append(self.watch)
        hook = c.extra.get('loop_head')
        if hook:
            hook(self)
        c.trace.append(('loop', self.key, self.k))
        self.t0 = len(c.trace)
        k, li_ = self.k, li
        def inst(i, self=self):
            if i.eq(self.k):
                return
            m = (self.k, i)
            for g in self.inv:
                c.facts.append(z3.simplify(z3.Implies(z3.And(0 <= i, i <= self.k), z3.substitute(g, m))))
            c.sess.steps_used[li_.key] = len(li_.steps)
            for app, f, k0 in li_.defs.values():
                c.describe(z3.substitute(app, (k0, i)), z3.substitute(f, (k0, i)))
            ss = [z3.substitute(z3.And(*s), m) if s else z3.BoolVal(True) for s in li_.steps.values()]
            if ss:
                c.facts.append(z3.simplify(z3.Implies(z3.And(0 <= i, i < self.k), z3.Or(*ss))))
        if not one:
            c.foralls.append(inst)

    def leafname(self, leaf):
        return leaf[1] if leaf[0] == 'l' else 'heap%d.%s' % (leaf[1], leaf[2])

    def fint(self, nm, e):
        c = C()
        t = c.fresh('L_' + nm, I)
        self.ints[nm] = (z3.simplify(zi(e)), t)
        return t

    def make_head(self, leaf, v0, sh):
        c = C()
        nm = self.leafname(leaf)
        if sh is None or sh.kind == 'const':
            return v0
        if sh.kind == 'int':
            if not isinstance(v0, (int, SymInt, SymEnum)):
                return Poison(nm)
            return mkint(self.fint(nm, v0))
        if sh.kind == 'real':
            return SymReal(c.fresh('L_' + nm, sym.R))
        if sh.kind == 'bool':
            return mkbool(c.fresh('L_' + nm, sym.B))
        if sh.kind == 'slice':
            cls = sh.cls
            r0 = cls.lift(v0) if not isinstance(v0, cls) else v0
            base, alo = sh.base(self)
            if base is None:
                return Poison(nm)
            if r0 is None:
                return Poison(nm)
            if not r0.parts:
                lo0 = hi0 = alo
            elif len(r0.parts) == 1 and isinstance(r0.parts[0], Slc) and r0.parts[0].base.eq(base):
                lo0, hi0 = r0.parts[0].lo, r0.parts[0].hi
            else:
                return Poison(nm)
            lo = self.fint(nm + '.lo', lo0)
            hi = self.fint(nm + '.hi', hi0)
            c.assume(z3.And(0 <= lo, lo <= hi, hi <= z3.Length(base)))
            return cls((Slc(base, lo, hi),))
        if sh.kind == 'pieces':
            base, alo = sh.base(self)
            r0 = joined(v0, SymBytes)
            if r0 is None or r0.parts and not only_slice(r0, base):
                return list(v0) + [('v', Poison(nm))]
            lo = self.fint(nm + '.lo', r0.parts[0].lo if r0.parts else alo)
            hi = self.fint(nm + '.hi', r0.parts[0].hi if r0.parts else alo)
            n = c.fresh('L_' + nm + '.n', I)
            c.assume(z3.And(0 <= lo, lo <= hi, hi <= z3.Length(base), n >= 0))
            f = z3.Function(c.fresh('L_' + nm + '.piece', I).decl().name() + '!f', I, S)
            seg = Pieces(('s', lambda i: SymBytes.atom(f(i)), n, None))
            seg.rope = SymBytes((Slc(base, lo, hi),))
            return [seg]
        if sh.kind == 'rope':
            t = c.fresh('L_' + nm, S)
            self.ints[nm + '.len'] = ((sh.cls.lift(v0)).zlen() if sh.cls.lift(v0) is not None else z3.IntVal(0), z3.Length(t))
            return sh.cls.atom(t)
        if sh.kind == 'cat':
            r0 = sh.cls.lift(v0)
            self.open = False
            ct = Cat(sh.fn(self), self.k)
            self.open = True
            c.assume(z3.Implies(self.k == 0, z3.Select(ct.c, z3.IntVal(0)) == z3.StringVal('')))
            return sh.cls(tuple(r0.parts) + (ct,))
        if sh.kind == 'list':
            seg = ('s', sh.fn(self), self.k, sh.cond(self))
            if leaf[0] == 'h':
                return list(v0) + [seg]
            r = PList(v0)
            r.parts = r.parts + [seg]
            return r
        if sh.kind == 'dict':
            seg = ('b', Bulk(self.k, sh.keyfn(self), sh.valfn(self), sh.cond(self), inj=True, ident=self.key))
            return list(v0) + [seg]
        if sh.kind == 'choice':
            opts = [(None, v0)] + [(s, v) for s, v in sh.variants.items() if s != signature(v0, self.watch.serial) or is_symbolic(v) or 'new:' in s or 'opq:' in s]
            if c.extra.get('one_iteration') and all(isinstance(o[1], bool) for o in opts):
                return mkbool(c.fresh('L_' + nm, sym.B))
            i = c.choose(len(opts), 'loop-carried ' + nm)
            self.phases[nm] = '' if i == 0 else opts[i][0]
            if i == 0:
                return v0
            pv = phase_ints(opts[i][1])
            if pv is not None and known_object(opts[i][1], self.watch.serial) is None:
                r = type(opts[i][1])()
                r.segs = []
                for key, v in pv:
                    t = self.pints['%s.%s' % (nm, key)] = c.fresh('L_%s.%s' % (nm, key), I)
                    r.segs = r.segs + [('e', key, mkint(t))]
                return r
            return freshen(opts[i][1], 'L_' + nm, self.watch.serial, opts[i][0])
        if sh.kind == 'havoc':
            return sh.fn(self, v0)
        raise Unsupported('shape %s' % sh.kind)

    def candidates(self):
        c = C()
        out = []
        names = sorted(self.ints)
        consts = []
        for i, n in enumerate(names):
            e0 = self.ints[n][0]
            out.append(('%s>=0' % n, lambda env, k, n=n: env[n] >= 0))
            out.append(('%s>=entry' % n, lambda env, k, n=n, e0=e0: env[n] >= e0))
            out.append(('%s==entry' % n, lambda env, k, n=n, e0=e0: env[n] == e0))
            out.append(('%s<=entry' % n, lambda env, k, n=n, e0=e0: env[n] <= e0))
            out.append(('%s==entry+k' % n, lambda env, k, n=n, e0=e0: env[n] == e0 + k))
            out.append(('%s==entry-k' % n, lambda env, k, n=n, e0=e0: env[n] == e0 - k))
            for m in names[i + 1:]:
                f0 = self.ints[m][0]
                out.append(('%s-%s const' % (n, m), lambda env, k, n=n, m=m, e0=e0, f0=f0: env[n] - env[m] == e0 - f0))
                out.append(('%s+%s const' % (n, m), lambda env, k, n=n, m=m, e0=e0, f0=f0: env[n] + env[m] == e0 + f0))
                out.append(('%s<=%s' % (n, m), lambda env, k, n=n, m=m: env[n] <= env[m]))
                out.append(('%s>=%s' % (n, m), lambda env, k, n=n, m=m: env[n] >= env[m]))
            for cn, ct in self.consts:
                out.append(('%s<=%s' % (n, cn), lambda env, k, n=n, ct=ct: env[n] <= ct))
                if n.endswith('.hi') and n[:-3] + '.lo' in self.ints:
                    out.append(('len(%s)<=%s' % (n[:-3], cn), lambda env, k, n=n, ct=ct: env[n] - env[n[:-3] + '.lo'] <= ct))
        tpl = c.extra.get('loop_templates')
        if tpl:
            out.extend(tpl(self))
        return out

    def phaselabel(self, phases):
        return ';'.join('%s=%s' % x for x in sorted(phases.items()))

    def phase_candidates(self, label):
        out = list(self.candidates())
        names = sorted(self.ints)
        for n in names:
            for m in names:
                if n != m:
                    out.append(('%s<%s' % (n, m), lambda env, k, n=n, m=m: env[n] < env[m]))
            for cn, ct in self.consts:
                out.append(('%s<%s' % (n, cn), lambda env, k, n=n, ct=ct: env[n] < ct))
        for n, ts in self.info.peq.get(label, {}).items():
            for i, t in enumerate(ts):
                out.append(('%s==#%d' % (n, i), lambda env, k, n=n, t=t: env[n] == t if n in env else z3.BoolVal(True)))
        return [(label + '|' + name, f) for name, f in out]

    def phase_end(self, env1, k1):
        """the invariants of the phase this iteration ends in"""
        c = C()
        li = self.info
        label = self.phaselabel(self.after)
        mine = self.phaselabel(self.phases)
        sub = [(h, e) for n, (e, h) in self.ints.items() if '%s|%s==entry' % (mine, n) not in li.dropped or '%s==entry' % n not in li.dropped]
        for n, t in self.pints.items():
            for i, x in enumerate(li.peq.get(mine, {}).get(n, ())):
                if '%s|%s==#%d' % (mine, n, i) not in li.dropped:
                    sub.append((t, x))
                    break
        for n, (e, h) in self.ints.items():
            for i, x in enumerate(li.peq.get(mine, {}).get(n, ())):
                if '%s|%s==#%d' % (mine, n, i) not in li.dropped:
                    sub.append((h, x))
                    break
        kn = self.k.decl().name()
        d = li.peq.setdefault(label, {})
        new = False
        for n, v in sorted(env1.items()):
            t = z3.simplify(z3.substitute(v, *sub)) if sub else z3.simplify(v)
            if kn in core.ast_vars(t) or (n in self.ints and t.eq(self.ints[n][0])):
                continue
            ts = d.setdefault(n, [])
            if len(ts) < 3 and not any(t.eq(x) for x in ts):
                ts.append(t)
                core._keep.append(t)
                new = True
        if new:
            restart(li, 'values on entering phase ' + label)
        import os
        left = [(name, f(env1, k1)) for name, f in self.phase_candidates(label) if name not in li.dropped]
        lost = []
        if not (left and c.entails(z3.And(*[g for n, g in left]))):
            lost = [name for name, g in left if not c.entails(g)]
        for name, g in left:
            c.sess.obligations.append(Obligation('loop %s: invariant %s preserved' % (self.key, name), 0, 'discharged', 'z3', 0))
        if lost:
            li.dropped.update(lost)
            restart(li, 'invariants not preserved: ' + ', '.join(lost)[:300])

    def note_consts(self, loc):
        """integer-valued loop constants usable as bounds"""
        self.consts = []
        for n in sorted(loc):
            v = loc[n]
            if n in self.names:
                if ('l', n) in self.info.leaves:
                    continue
            if isinstance(v, SymInt) or (isinstance(v, int) and not isinstance(v, bool) and v > 1):
                self.consts.append((n, zi(v)))
            elif isinstance(v, Rope):
                self.consts.append(('len(%s)' % n, v.zlen()))
            elif isinstance(v, bytes) and len(v) > 1:
                self.consts.append(('len(%s)' % n, z3.IntVal(len(v))))

    def backedge(self, loc):
        c = C()
        li = self.info
        k1 = z3.simplify(self.k + 1)
        m = (self.k, k1)
        # mutated heap leaves must be known
        new = False
        managed = c.extra.get('managed', ())        # objects the contract itself makes arbitrary at the loop head
        for key in list(self.watch.seen):
            h = ('h',) + key
            if h not in li.heap:
                o = self.watch.seen[key]
                if any(o is x for x in managed):
                    continue
                if not self.heap_unchanged(h, o):
                    li.heap.append(h)
                    new = True
        if new:
            restart(li, 'new mutated heap leaves')
        env1 = {}
        trans = []
        self.after = {}
        for leaf, hv in self.head.items():
            if leaf[0] == 'l' and leaf[1] not in self.live:
                continue
            if leaf[0] == 'l':
                nv = loc.get(leaf[1], UNB)
            else:
                nv = getattr(c_obj(leaf[1]), leaf[2], UNB)
                if leaf in self.havoced:
                    continue
            self.check_leaf(leaf, self.entry[leaf], hv, nv, env1, m)
        for n, (e, h) in self.ints.items():
            if n not in env1:
                env1[n] = h
            trans.append(z3.substitute(h, m) == env1[n] if not h.eq(env1[n]) or True else None)
        left = [(name, f(env1, k1)) for name, f in self.cands if name not in li.dropped]
        lost = []
        if not (left and c.entails(z3.And(*[g for n, g in left]))):
            lost = [name for name, g in left if not c.entails(g)]
        for name, g in left:
            c.sess.obligations.append(Obligation('loop %s: invariant %s preserved' % (self.key, name), 0, 'discharged', 'z3', 0))
        if lost:
            li.dropped.update(lost)
            restart(li, 'invariants not preserved: ' + ', '.join(lost))
        if self.phases and not self.one:
            self.phase_end(env1, k1)
        if self.one:
            hook = c.extra.get('loop_backedge')
            if hook:
                hook(self, c.trace[self.t0:])
            c.end()
        # step facts
        step = [f for f in c.facts[self.c0:] if not z3.is_quantifier(f) and core.gid(f) not in c.background and core.gid(f) not in core._defs] + trans
        sg = tuple(sorted(f.sexpr() for f in step))
        c.sess.visited.add((li.key, 'step', sg))
        if sg not in li.steps:
            li.steps[sg] = step
        kn = self.k.decl().name()
        for app, f in c.defs[self.d0:]:
            if kn in core.ast_vars(app) or kn in core.ast_vars(f):
                li.defs.setdefault((app.get_id(), f.get_id()), (app, f, self.k))
        hook = c.extra.get('loop_backedge')
        if hook:
            hook(self, c.trace[self.t0:])
        c.end()

    def heap_unchanged(self, h, o):
        return False

    def check_leaf(self, leaf, v0, hv, nv, env1, m):
        c = C()
        li = self.info
        sh = li.leaves.get(leaf)
        nm = self.leafname(leaf)
        heaplist = leaf[0] == 'h' and leaf[2] in ('parts', 'segs')
        if sh is None or sh.kind == 'const':
            if heaplist:
                if (same_parts if leaf[2] == 'parts' else same_segs)(hv, nv):
                    return
            elif same_value(hv, nv):
                return
            self.infer(leaf, v0, hv, nv)
            restart(li, 'leaf %s' % nm)
        if sh.kind == 'int':
            if isinstance(nv, (int, SymInt, SymEnum)) and not isinstance(nv, bool):
                env1[nm] = zi(nv)
                return
        elif sh.kind == 'real':
            if isinstance(nv, (SymReal, float, int, SymInt)):
                return
        elif sh.kind == 'bool':
            if isinstance(nv, (bool, SymBool)):
                return
        elif sh.kind == 'slice':
            if isinstance(hv, Poison):
                return
            base = hv.parts[0].base
            r = sh.cls.lift(nv) if not isinstance(nv, sh.cls) else nv
            r = coalesce(r)
            if r is not None:
                if not r.parts:
                    # empty: any position; keep hi if provable
                    env1[nm + '.lo'] = env1[nm + '.hi'] = self.ints[nm + '.hi'][1]
                    hi = self.ints[nm + '.hi'][1]
                    lo = self.ints[nm + '.lo'][1]
                    if 'hi' in getattr(sh, 'anchor', 'hi'):
                        return
                    return
                if len(r.parts) == 1 and isinstance(r.parts[0], Slc) and r.parts[0].base.eq(base):
                    env1[nm + '.lo'] = r.parts[0].lo
                    env1[nm + '.hi'] = r.parts[0].hi
                    return
            li.leaves[leaf] = Shape('rope', cls=sh.cls)
            restart(li, 'leaf %s is not a slice' % nm)
        elif sh.kind == 'rope':
            r = sh.cls.lift(nv)
            if r is not None:
                env1[nm + '.len'] = r.zlen()
                return
        elif sh.kind == 'cat':
            r = sh.cls.lift(nv)
            pre = hv.parts
            if r is not None and len(r.parts) >= len(pre) and all(a.same(b) for a, b in zip(pre, r.parts)):
                x = sh.cls(r.parts[len(pre):])
                if same_value(x, sh.fn(self)(self.k)):
                    return
            li.leaves[leaf] = Shape('rope', cls=sh.cls)
            restart(li, 'leaf %s is not a concatenation' % nm)
        elif sh.kind == 'pieces':
            base = sh.base(self)[0]
            if isinstance(hv[-1], Pieces):
                r = joined(nv, SymBytes) if nv and nv[0] is hv[0] else None
                if only_slice(r, base):
                    env1[nm + '.lo'], env1[nm + '.hi'] = r.parts[0].lo, r.parts[0].hi
                    return
            raise Unsupported('pieces that are not consecutive in the stream')
        elif sh.kind == 'list':
            parts = nv if leaf[0] == 'h' else (nv.parts if isinstance(nv, PList) else None)
            hp = hv if leaf[0] == 'h' else hv.parts
            eff = self.list_effect(hp, parts)
            self.note_effect(leaf, eff, sh)
            return
        elif sh.kind == 'dict':
            eff = self.dict_effect(hv, nv)
            self.note_effect(leaf, eff, sh)
            return
        elif sh.kind == 'choice':
            s = signature(nv, self.watch.serial)
            if s in sh.variants or same_value(nv, v0):
                if nm in self.phases:
                    # (the kinds offered at the head, see make_head)
                    self.after[nm] = s if s in sh.variants and (s != signature(v0, self.watch.serial) or is_symbolic(nv) or 'new:' in s or 'opq:' in s) else ''
                    for key, v in phase_ints(nv) or ():
                        env1['%s.%s' % (nm, key)] = zi(v)
                return
            sh.variants[s] = nv
            restart(li, 'leaf %s: new variant %s' % (nm, s))
        elif sh.kind == 'havoc':
            return
        # fall back
        if sh.kind != 'choice':
            li.leaves[leaf] = Shape('choice', variants={signature(nv, self.watch.serial): nv})
            restart(li, 'leaf %s: choice' % nm)

    def infer(self, leaf, v0, hv, nv):
        """choose a shape for a leaf whose value changed"""
        li = self.info
        c = C()
        if leaf[0] == 'h' and leaf[2] == 'parts':
            r = joined(nv[len(hv):], SymBytes) if not self.iskfor() and len(nv) > len(hv) and same_parts(hv, nv[:len(hv)]) else None
            if only_slice(r):
                bn = r.parts[0].base
                lo = z3.simplify(z3.substitute(r.parts[0].lo, [(h, e) for e, h in self.ints.values()] + [(self.k, z3.IntVal(0))]))
                li.leaves[leaf] = Shape('pieces', base=lambda loop: (bn, lo))
                return
            eff = self.list_effect(hv, nv)
            li.effects[leaf] = {}
            self.record_effect(leaf, eff)
            li.leaves[leaf] = self.list_shape(leaf)
            return
        if leaf[0] == 'h' and leaf[2] == 'segs':
            eff = self.dict_effect(hv, nv)
            li.effects[leaf] = {}
            self.record_effect(leaf, eff)
            li.leaves[leaf] = self.dict_shape(leaf)
            return
        isint = lambda v: isinstance(v, (int, SymInt)) and not isinstance(v, bool)
        if isint(v0) and isint(nv):
            li.leaves[leaf] = Shape('int')
            return
        num = lambda v: isinstance(v, (int, float, SymInt, SymReal)) and not isinstance(v, bool)
        if num(v0) and num(nv):
            li.leaves[leaf] = Shape('real')
            return
        if isinstance(v0, (bool, SymBool)) and isinstance(nv, SymBool):
            li.leaves[leaf] = Shape('bool')
            return
        for cls in (SymStr, SymBytes):
            if cls.lift(v0) is not None and cls.lift(nv) is not None:
                a, b = cls.lift(v0), cls.lift(nv)
                if len(b.parts) == 1 and isinstance(b.parts[0], Slc) and not isinstance(b.parts[0], sym.BePart):
                    base = b.parts[0].base
                    if z3.is_const(base) and (not a.parts or (len(a.parts) == 1 and isinstance(a.parts[0], Slc) and a.parts[0].base.eq(base))):
                        bn = base
                        # where it starts: the value of that position in the first iteration
                        lo = z3.simplify(z3.substitute(b.parts[0].lo, [(h, e) for e, h in self.ints.values()] + [(self.k, z3.IntVal(0))]))
                        li.leaves[leaf] = Shape('slice', cls=cls, base=lambda loop: (bn, lo))
                        return
                if not b.parts and len(a.parts) == 1 and isinstance(a.parts[0], Slc) and not isinstance(a.parts[0], sym.BePart) and z3.is_const(a.parts[0].base):
                    bn, lo = a.parts[0].base, a.parts[0].lo
                    li.leaves[leaf] = Shape('slice', cls=cls, base=lambda loop: (bn, lo))
                    return
                # growth by concatenation in a for loop
                if len(b.parts) > len(a.parts) and all(x.same(y) for x, y in zip(a.parts, b.parts)) and self.iskfor():
                    x = cls(b.parts[len(a.parts):])
                    k0 = self.k
                    li.leaves[leaf] = Shape('cat', cls=cls, fn=lambda loop: (lambda i: x.subst((k0, i))))
                    return
                li.leaves[leaf] = Shape('rope', cls=cls)
                return
        if isinstance(v0, PList) and isinstance(nv, PList):
            eff = self.list_effect(hv.parts, nv.parts)
            li.effects[leaf] = {}
            self.record_effect(leaf, eff)
            li.leaves[leaf] = self.list_shape(leaf)
            return
        li.leaves[leaf] = Shape('choice', variants={signature(nv, self.watch.serial): nv})

    def iskfor(self):
        return isinstance(self, ForLoop)

    # -- list / dict accumulation
    def list_effect(self, hp, parts):
        if parts is None:
            raise Unsupported('list leaf became something else')
        n = len(hp)
        if len(parts) < n or not same_parts(hp, parts[:n]):
            raise Unsupported('loop rewrites a list')
        extra = parts[n:]
        if any(p[0] != 'v' for p in extra) or len(extra) > 1:
            raise Unsupported('loop appends several elements per iteration')
        return ('app', extra[0][1]) if extra else None

    def dict_effect(self, hs, segs):
        n = len(hs)
        if len(segs) < n or not same_segs(hs, segs[:n]):
            raise Unsupported('loop rewrites a dictionary')
        extra = segs[n:]
        if any(p[0] != 'e' for p in extra) or len(extra) > 1:
            raise Unsupported('loop adds several entries per iteration')
        return ('put', extra[0][1], extra[0][2]) if extra else None

    def pathsig(self):
        c = C()
        fs = [f for f in c.facts[self.c0:] if not z3.is_quantifier(f) and core.gid(f) not in c.background and core.gid(f) not in core._defs]
        return z3.And(*fs) if fs else z3.BoolVal(True)

    def record_effect(self, leaf, eff):
        ps = self.pathsig()
        core._keep.append(ps)
        c = C()
        c.sess.visited.add((self.info.key, leaf, ps.sexpr()))
        self.info.effects.setdefault(leaf, {})[ps.sexpr()] = (ps, eff, self.k)

    def note_effect(self, leaf, eff, sh):
        ps = self.pathsig()
        d = self.info.effects.setdefault(leaf, {})
        s = ps.sexpr()
        C().sess.visited.add((self.info.key, leaf, s))
        if s not in d:
            # equivalent to a known effect?
            core._keep.append(ps)
            d[s] = (ps, eff, self.k)
            if eff is not None:
                ref = self.sole(leaf)
                # shapes read the effects table, which has changed
            restart(self.info, 'new effect on %s' % self.leafname(leaf))
        if (d[s][1] is None) != (eff is None):
            raise Unsupported('an effect on %s that the path condition does not determine' % self.leafname(leaf))
        ref = self.sole(leaf)
        if eff is None:
            return
        if leaf in getattr(self, 'merges', {}):
            return          # by definition of the merged element
        e = tuple(subst(x, (ref[2], self.k)) for x in ref[1][1:])
        if not all(same_value(x, y) for x, y in zip(e, eff[1:])):
            raise Unsupported('different effects on %s on different paths' % self.leafname(leaf))

    def sole(self, leaf):
        for s, (ps, eff, k) in self.info.effects[leaf].items():
            if eff is not None:
                return (ps, eff, k)
        return None

    def cond_of(self, leaf):
        d = self.info.effects[leaf]
        if all(e is not None for _, e, _ in d.values()):
            return None
        yes = [(ps, k) for ps, e, k in d.values() if e is not None]
        return lambda i: z3.Or(*[z3.substitute(ps, (k, i)) for ps, k in yes])

    def list_shape(self, leaf):
        def fn(loop):
            r = loop.sole(leaf)
            if r is None:
                return lambda i: Poison('empty list segment')
            mg = loop.merged(leaf)
            if mg is not None:
                return mg
            return lambda i: subst(r[1][1], (r[2], i))
        return Shape('list', fn=fn, cond=lambda loop: loop.cond_of(leaf))

    def merged(self, leaf):
        """element function of a list whose paths append different values: a fresh function, equal per path to its value"""
        effs = [(ps, e[1], k) for ps, e, k in self.info.effects[leaf].values() if e is not None]
        if len(effs) < 2:
            return None
        x0 = effs[0][1]
        if all(same_value(subst(x, (k, effs[0][2])), x0) for ps, x, k in effs[1:]):
            return None
        c = C()
        vals = [x for _, x, _ in effs]
        kinds = set(valkind(x) for x in vals)
        if None in kinds:
            raise Unsupported('paths append values that cannot be merged (%s)' % [valkind(x) or type(x).__name__ for x in vals])
        if len(kinds) > 1:
            return self.merged_kinds(leaf, effs)
        return self.merged_one(leaf, effs, kinds.pop())

    def merged_kinds(self, leaf, effs):
        """values of different kinds on different paths: which kind element i has is decided by the path conditions"""
        c = C()
        groups = {}
        for e in effs:
            groups.setdefault(valkind(e[1]), []).append(e)
        kinds = sorted(groups)
        conds = {kd: (lambda i, g=groups[kd]: z3.Or(*[z3.substitute(ps, (k, i)) for ps, x, k in g])) for kd in kinds}
        i = z3.Const(c.name('mk'), I)
        for n, a in enumerate(kinds):
            for b in kinds[n + 1:]:
                if query_sat(z3.And(conds[a](i), conds[b](i))):
                    raise Unsupported('paths that append values of different kinds overlap')
        fns = {kd: self.merged_one(leaf, groups[kd], kd) for kd in kinds}
        def fn(i):
            for kd in kinds[:-1]:
                if c.decide(conds[kd](i), 'element is %s' % kd):
                    return fns[kd](i)
            return fns[kinds[-1]](i)
        return fn

    def merged_one(self, leaf, effs, kind):
        c = C()
        sort = {'bool': sym.B, 'str': S, 'bytes': S, 'int': I, 'val': Opaque.VAL}[kind]
        wrap = {'bool': mkbool, 'str': SymStr.atom, 'bytes': SymBytes.atom, 'int': mkint, 'val': Opaque}[kind]
        term = {'bool': core.zb, 'str': lambda v: SymStr.lift(v).term(), 'bytes': lambda v: SymBytes.lift(v).term(), 'int': zi, 'val': lambda v: v.t}[kind]
        ks = [l.k for l in c.loops if l.open and l is not self]
        f = z3.Function(c.name('elt'), *([I] * (len(ks) + 1) + [sort]))
        F = lambda i: f(*(ks + [i]))
        def inst(i):
            for ps, x, k in effs:
                c.facts.append(z3.Implies(z3.substitute(ps, (k, i)), F(i) == term(subst(x, (k, i)))))
        c.foralls.append(inst)
        self.merges = getattr(self, 'merges', {})
        self.merges[leaf] = inst
        if len(effs) == 1:
            ps, x, k = effs[0]
            return lambda i: subst(x, (k, i))
        def fn(i):
            inst(i)
            return wrap(F(i))
        return fn

    def dict_shape(self, leaf):
        def kf(loop):
            r = loop.sole(leaf)
            return lambda i: subst(r[1][1], (r[2], i))
        def vf(loop):
            r = loop.sole(leaf)
            return lambda i: subst(r[1][2], (r[2], i))
        return Shape('dict', keyfn=kf, valfn=vf, cond=lambda loop: loop.cond_of(leaf))

def valkind(v):
    if isinstance(v, (bool, SymBool)): return 'bool'
    if isinstance(v, (int, SymInt)): return 'int'
    if isinstance(v, (str, SymStr)): return 'str'
    if isinstance(v, (bytes, SymBytes)): return 'bytes'
    if isinstance(v, Opaque): return 'val'
    return None

def query_sat(f):
    return core.query([z3.simplify(f)], timeout=3000)[0] != 'unsat'

def c_obj(serial):
    c = C()
    for s, o in c.objs.values():
        if s == serial:
            return o
    return None

class WhileLoop(LoopBase):
    def __init__(self, lid, names, live):
        LoopBase.__init__(self, lid, names, live)
    def head_(self, loc):
        c = C()
        if self.cutting:
            self.backedge(loc)
        if self.info.mode is None and c.extra.get('cut_whiles'):
            self.info.mode = 'cut'
        if self.info.mode == 'cut':
            self.note_consts(loc)
            self.cut_head(loc)
            return True
        self.vars = {}
        self.count += 1
        if self.count > UNROLL:
            self.info.mode = 'cut'
            restart(self.info, 'unroll limit')
        return True
    def cond(self, v):
        if not self.cutting and not isinstance(v, (bool, int, str, bytes, type(None), float)):
            sym_ = isinstance(v, (Sym, Rope)) or (isinstance(v, (PList, PDict)) and not v.concrete())
            if sym_ and not (isinstance(v, Rope) and any(isinstance(p, Lit) for p in v.parts)):
                self.info.mode = 'cut'
                restart(self.info, 'symbolic loop condition')
        return bool(v)

class ForLoop(LoopBase):
    def __init__(self, it, lid, names, live):
        from . import rt
        LoopBase.__init__(self, lid, names, live)
        self.it = None
        if isinstance(it, PList) and not it.concrete():
            self.pl = it
            self.stage = 0
            self.pos = 0
        else:
            self.pl = None
            self.it = rt.native_iter(it)
        self.item = None
        self.base = self.key
    def next(self, loc):
        C()
        if self.pl is None:
            try:
                self.item = next(self.it)
            except StopIteration:
                return False
            return True
        return self.next_sym(loc)
    def next_sym(self, loc):
        c = C()
        old, self.vars = self.vars, {}
        if self.cutting:
            if self.generic:
                self.backedge(loc)
            # exited the segment: fallthrough cannot happen
        while True:
            if self.pos >= len(self.pl.parts):
                return False
            p = self.pl.parts[self.pos]
            if p[0] == 'v':
                self.pos += 1
                self.item = p[1]
                return True
            # symbolic segment
            self.pos += 1
            self.key = '%s@%d' % (self.base, self.pos)
            self.info = loopinfo(self.key)
            self.note_consts(loc)
            cur = dict(loc)
            cur.update({n: v for n, v in self.vars.items() if v is not UNB})
            self.vars = {}
            self.cut_head(cur)
            self.n = p[2]
            c.assume(self.k <= p[2])
            ch = c.choose(3 if p[3] is not None else 2, 'loop generic/exit', record=False)
            if ch == 2:
                # filtered source: an index failing the filter is not visited
                c.assume(self.k < p[2])
                c.instantiate(self.k)
                c.assume(z3.Not(core.zb(p[3](self.k))))
                self.generic = True
                loc2 = dict(loc)
                for n, v in self.vars.items():
                    loc2[n] = v
                self.backedge(loc2)
            if ch == 0:
                c.assume(self.k < p[2])
                c.instantiate(self.k)
                c.witness.append(self.k)
                self.generic = True
                if p[3] is not None:
                    c.assume(core.zb(p[3](self.k)))
                self.item = p[1](self.k)
                return True
            self.generic = False
            self.cutting = False
            c.assume(self.k == p[2])
            self.exitloop(p)
    def exitloop(self, p):
        c = C()
        if self.watch in c.mut_watch:
            c.mut_watch.remove(self.watch)
        self.open = False
        c.trace.append(('loop-end', self.key, self.k))
        loc = {}
        if p[3] is not None and any(s.kind in ('cat',) for s in self.info.leaves.values()):
            raise Unsupported('concatenation over a filtered collection')
