"""sequential library models"""
import builtins, struct as _struct, io as _io, sys, types
import z3
from .. import core, sym, rt
from ..core import Unsupported, Internal
from ..sym import C, I, S, R, SymInt, SymBool, SymStr, SymBytes, SymReal, SymEnum, SymNum, Rope, Lit, Slc, mkint, mkreal, zi, zr, be, unbe
from ..containers import PList, PDict, Opaque, is_symbolic, Mut
from ..rt import Model


def noop(*a, **k):
    return None


class Logger(Model):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return noop


def assume(what):
    C().sess.assumptions.add(what)


# ---------------------------------------------------------------- struct

CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    """-> list of (code, count) ; count python int or z3 term; only for ! and > formats (and byte-only native ones)"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('latin-1')
    toks = []
    if isinstance(fmt, str):
        parts = [Lit(fmt)]
    else:
        parts = fmt.parts
    order = None
    cnt = None
    first = True
    for p in parts:
        if isinstance(p, Lit):
            for ch in p.v:
                if first and ch in '!><=@':
                    order = ch
                    first = False
                    continue
                first = False
                if ch.isspace():
                    continue
                if ch.isdigit():
                    if cnt is None:
                        cnt = 0
                    if not isinstance(cnt, int):
                        raise Unsupported('struct format')
                    cnt = cnt * 10 + int(ch)
                    continue
                toks.append((ch, 1 if cnt is None else cnt, cnt is not None))
                cnt = None
        else:
            first = False
            t = getattr(p, 'base', None)
            if t is None or not z3.is_app(t) or t.decl().name() != 'int2str' or not p.whole() or cnt is not None:
                raise Unsupported('struct format is not composed of literals and numbers')
            cnt = t.arg(0)
            # a negative number prints with a minus sign, which no format accepts
            if C().decide(cnt < 0, 'negative count'):
                raise _struct.error('bad char in struct format')
    if cnt is not None:
        raise _struct.error('repeat count given without format specifier')
    for ch, n, e in toks:
        if ch not in CODES and ch not in 'sx?c':
            if ch in 'fdenNPp':
                raise Unsupported('struct code %s' % ch)
            raise _struct.error('bad char in struct format')
    if order not in ('!', '>') and any(ch not in 's?cxbB' for ch, n, e in toks):
        if order is None or order in '@=<':
            raise Unsupported('native or little-endian struct format')
    return toks


def flat(toks):
    for ch, n, e in toks:
        if ch in 's':
            yield ch, n
        else:
            if not isinstance(n, int):
                raise Unsupported('symbolic repeat count')
            for _ in range(n):
                yield ch, 1


def calcsize(fmt):
    t = z3.IntVal(0)
    for ch, n in flat(parse_fmt(fmt)):
        t = t + (CODES[ch][0] if ch in CODES else n)
    return mkint(z3.simplify(t))


def pack(fmt, *args):
    if isinstance(fmt, str) and not rt.anysym(args, {}):
        args = [a.v if isinstance(a, rt.SymBuf) else a for a in args]
        return _struct.pack(fmt, *args)
    toks = list(flat(parse_fmt(fmt)))
    if len([1 for ch, n in toks if ch != 'x']) != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (len(toks), len(args)))
    ok = []
    it = iter(args)
    vals = []
    for ch, n in toks:
        if ch == 'x':
            vals.append((ch, n, None))
            continue
        a = next(it)
        if ch in CODES:
            if not (isinstance(a, (SymInt, SymBool, SymEnum)) or isinstance(a, int)):
                raise _struct.error('required argument is not an integer')
            k, signed = CODES[ch]
            v = zi(a)
            lo, hi = (-(256 ** k) // 2, 256 ** k // 2) if signed else (0, 256 ** k)
            ok.append(z3.And(v >= lo, v < hi))
            vals.append((ch, k, v))
        elif ch == 's':
            if isinstance(a, rt.SymBuf):
                a = a.v
            if not isinstance(a, (bytes, SymBytes)):
                raise _struct.error("argument for 's' must be a bytes object")
            vals.append((ch, n, a))
        else:
            raise Unsupported('struct code %s with symbolic values' % ch)
    if ok and not C().decide(z3.And(*ok), 'struct.pack in range'):
        raise _struct.error('argument out of range')
    out = SymBytes()
    for ch, k, v in vals:
        if ch in CODES:
            u = z3.If(v < 0, v + 256 ** k, v) if CODES[ch][1] else v
            r = be(k, z3.simplify(u))
        elif ch == 's':
            l = SymBytes.lift(v)
            n = zi(k) if not isinstance(k, int) else z3.IntVal(k)
            ln = l.zlen()
            if z3.simplify(ln - n).eq(z3.IntVal(0)) or C().decide(ln == n, 'length as packed'):
                r = l
            elif C().decide(ln > n):
                r = SymBytes.lift(l[:mkint(n)])
            else:
                z = C().fresh('zeros', S)
                C().assume(z3.Length(z) == n - ln)
                r = SymBytes.lift(l + SymBytes.atom(z))
        else:
            r = b'\0' * k
        out = SymBytes.lift(out + r)
    return out.low()


def unpack_list(fmt, buf, exact=True):
    if isinstance(buf, rt.SymBuf):
        buf = buf.v
    if not isinstance(buf, (bytes, SymBytes)):
        if isinstance(buf, (bytearray, memoryview)):
            buf = bytes(buf)
        else:
            raise TypeError("a bytes-like object is required")
    if isinstance(fmt, str) and isinstance(buf, bytes):
        return _struct.unpack(fmt, buf)
    toks = list(flat(parse_fmt(fmt)))
    size = z3.IntVal(0)
    for ch, n in toks:
        size = size + (CODES[ch][0] if ch in CODES else n)
    size = z3.simplify(size)
    b = SymBytes.lift(buf)
    if not C().decide(b.zlen() == size, 'length as the format says'):
        raise _struct.error('unpack requires a buffer of %s bytes' % size)
    out = []
    pos = z3.IntVal(0)
    for ch, n in toks:
        w = z3.IntVal(CODES[ch][0]) if ch in CODES else zi(n) if not isinstance(n, int) else z3.IntVal(n)
        nx = z3.simplify(pos + w)
        if ch == 'x':
            pos = nx
            continue
        part = b.cut(pos, nx)
        part = SymBytes.lift(part)
        if ch in CODES:
            k, signed = CODES[ch]
            u = unbe(k, part)
            v = z3.If(u >= 256 ** k // 2, u - 256 ** k, u) if signed else u
            out.append(mkint(z3.simplify(v)))
        elif ch == 's':
            out.append(part.low())
        else:
            raise Unsupported('struct code %s' % ch)
        pos = nx
    return tuple(out)


def unpack_from(fmt, buf, offset=0):
    n = calcsize(fmt)
    b = rt.getitem(buf, slice(offset, offset + n, None))
    return unpack_list(fmt, b)


class Struct(Model):
    def __init__(self, fmt):
        self.format = fmt
    @property
    def size(self): return calcsize(self.format)
    def pack(self, *a): return pack(self.format, *a)
    def unpack(self, b): return unpack_list(self.format, b)
    def unpack_from(self, b, offset=0): return unpack_from(self.format, b, offset)


def int_from_bytes(b, byteorder='big', *, signed=False):
    if not isinstance(b, SymBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    if byteorder != 'big':
        raise Unsupported('little-endian from_bytes')
    n = C()
    ln = z3.simplify(b.zlen())
    for k in (1, 2, 4, 8):
        if n.entails(ln == k):
            u = unbe(k, b)
            return mkint(z3.simplify(z3.If(u >= 256 ** k // 2, u - 256 ** k, u) if signed else u))
    raise Unsupported('from_bytes of symbolic length')


def int_to_bytes(x, length=1, byteorder='big', *, signed=False):
    if not is_symbolic(x):
        return int(x).to_bytes(length, byteorder, signed=signed)
    if byteorder != 'big' or length not in (1, 2, 4, 8):
        raise Unsupported('to_bytes')
    v = zi(x)
    lo, hi = (-(256 ** length) // 2, 256 ** length // 2) if signed else (0, 256 ** length)
    if not C().decide(z3.And(v >= lo, v < hi)):
        raise OverflowError('int too big to convert')
    return be(length, z3.simplify(z3.If(v < 0, v + 256 ** length, v) if signed else v))


rt.TABLE[int.from_bytes] = int_from_bytes
SymNum.to_bytes = int_to_bytes
rt.SYMNUM_OK.add('to_bytes')


# ---------------------------------------------------------------- itertools

class Cycle(Model):
    """itertools.cycle over a finite sequence given as an index function; position `pos` draws have been made"""
    def __init__(self, it):
        p = rt.to_plist(it)
        self.list = PList(p)
        self.n = self.list.zlen()
        self.pos = 0
        self.drawn = []

    def at(self, pos):
        if self.list.concrete() and len(self.list.vals()) == 1:
            return self.list.vals()[0]
        return self.list.at(z3.simplify(pos % self.n))

    def __pyvc_next__(self):
        c = C()
        if not c.decide(self.n > 0, 'non-empty cycle'):
            raise StopIteration()
        rt.note(self, 'pos')
        h = c.extra.get('cycle_hook')
        if h:
            return h(self)
        v = self.at(zi(self.pos))
        self.pos = mkint(z3.simplify(zi(self.pos) + 1))
        self.drawn.append(v)
        return v

    def __iter__(self):
        return self

    def __next__(self):
        return self.__pyvc_next__()


class Count(Model):
    def __init__(self, start=0, step=1):
        self.start = zi(start); self.step = zi(step)
        self.pos = 0
    def at(self, pos):
        return mkint(z3.simplify(self.start + pos * self.step))
    def __pyvc_next__(self):
        rt.note(self, 'pos')
        h = C().extra.get('cycle_hook')
        if h:
            return h(self)
        v = self.at(zi(self.pos))
        self.pos = mkint(z3.simplify(zi(self.pos) + 1))
        return v
    def __iter__(self): return self
    def __next__(self): return self.__pyvc_next__()


class Mapped(Model):
    """f of each item of a sequence without end"""
    def __init__(self, f, src):
        self.f, self.src = f, src
    def at(self, pos):
        return rt.call(self.f, self.src.at(pos))
    @property
    def pos(self):
        return self.src.pos
    @pos.setter
    def pos(self, v):
        self.src.pos = v
    def __pyvc_next__(self):
        h = C().extra.get('cycle_hook')
        if h:
            rt.note(self.src, 'pos')
            return h(self)
        return rt.call(self.f, self.src.__pyvc_next__())
    def __iter__(self): return self
    def __next__(self): return self.__pyvc_next__()


def chain(*its):
    r = PList()
    for i in its:
        r.parts = r.parts + list(rt.to_plist(i).parts)
    return r


chain.from_iterable = lambda its: chain(*rt.native_iter(rt.symiter(its)))


# ---------------------------------------------------------------- io

class BytesIO(Model):
    def __init__(self, b=b''):
        self.v = b
        self.p = 0 if b == b'' else None
    def write(self, b):
        if isinstance(b, rt.SymBuf): b = b.v
        rt.note(self, 'v')
        if self.p is None:
            raise Unsupported('BytesIO positioned write')
        self.v = SymBytes.lift(SymBytes.lift(self.v) + b).low()
        return rt.len_(b)
    def getvalue(self):
        return self.v
    getbuffer = getvalue
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


# ---------------------------------------------------------------- threading (sequential meaning)

class Lock(Model):
    """a lock as seen by one sequential run: counts, so that exits are matched"""
    def __init__(self):
        self.held = 0
    reentrant = False
    def acquire(self, blocking=True, timeout=-1):
        if self.held and not self.reentrant:
            raise Unsupported('deadlock: a lock that is not reentrant is taken again by its holder')
        self.held += 1
        h = C().extra.get('lock_hook')
        if h: h(self, 'acquire')
        return True
    def release(self):
        if self.held <= 0:
            raise RuntimeError('release of an unacquired lock')
        h = C().extra.get('lock_hook')
        if h: h(self, 'release')
        self.held -= 1
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()
        return False
    def locked(self):
        return self.held > 0
    def _is_owned(self):
        return self.held > 0


class RLock(Lock):
    reentrant = True


class ThreadLocal(Model):
    pass


class Thread(Model):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs, self.daemon = target, args, kwargs, daemon
        self.started = False
        C().extra.setdefault('threads', []).append(self)
    def start(self):
        self.started = True
        C().event('thread', self.target)
    def join(self, timeout=None):
        pass
    def is_alive(self):
        return True


# ---------------------------------------------------------------- time, random, os

def time_time():
    c = C()
    t = c.fresh('now', R)
    last = c.extra.get('clock')
    c.assume(t >= (last if last is not None else 0))
    c.extra['clock'] = t
    h = c.extra.get('clock_hook')
    if h:
        h(t)
    return SymReal(t)


def randint(a, b):
    c = C()
    if not c.decide(zi(a) <= zi(b)):
        raise ValueError('empty range')
    r = c.fresh('randint', I)
    c.assume(z3.And(zi(a) <= r, r <= zi(b)))
    return mkint(r)


def randrange(a, b=None):
    if b is None:
        a, b = 0, a
    return randint(a, b - 1)


class OrderedDict(PDict):
    pass


def namedtuple(name, fields, **k):
    import collections
    if isinstance(fields, PList):
        fields = fields.vals()
    return collections.namedtuple(name, fields, **k)


def defaults(world):
    from ..world import NS
    import collections, contextlib, threading as real_threading, errno, socket as real_socket, collections.abc
    lg = Logger()
    m = {}
    m['logging'] = NS('logging', getLogger=lambda *a: lg, **{n: noop for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig')}, DEBUG=10, INFO=20, WARNING=30, ERROR=40, NullHandler=Logger)
    m['struct'] = NS('struct', pack=pack, unpack=unpack_list, calcsize=calcsize, error=_struct.error, Struct=Struct, unpack_from=unpack_from)
    m['itertools'] = NS('itertools', cycle=Cycle, chain=chain, count=Count)
    m['io'] = NS('io', BytesIO=BytesIO)
    m['threading'] = NS('threading', Lock=Lock, RLock=RLock, local=ThreadLocal, Thread=Thread, current_thread=noop, get_ident=lambda: 1)
    m['time'] = NS('time', time=time_time, sleep=noop, monotonic=time_time)
    m['random'] = NS('random', randint=randint, randrange=randrange)
    m['traceback'] = NS('traceback', format_exc=lambda *a: 'traceback', print_exc=noop)
    m['collections'] = NS('collections', OrderedDict=OrderedDict, namedtuple=namedtuple, abc=collections.abc, _real=collections)
    m['collections.abc'] = collections.abc
    m['uvloop'] = None
    m['selectors34'] = None
    from . import net, aio, web
    net.install(world, m)
    aio.install(world, m)
    web.install(world, m)
    return m
