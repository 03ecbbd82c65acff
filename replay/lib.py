"""Shared parts of the concrete (CPython) harnesses: recorder, guard, and an independent wire codec.

A harness drives the real code of /repo under CPython with concrete inputs.  It is used to turn a failed proof
obligation into a failing input, and as a bounded cross-check; what it explores is never counted as proved."""
import contextlib, json, os, random, signal, socket, struct, sys, threading, time, traceback

REQ_CLASS = b"com.alipay.sofa.rpc.core.request.SofaRequest"
RESP_CLASS = b"com.alipay.sofa.rpc.core.response.SofaResponse"
STATUSES = dict(SUCCESS=0, ERROR=1, SERVER_EXCEPTION=2, UNKNOWN=3, SERVER_THREADPOOL_BUSY=4, ERROR_COMM=5,
                NO_PROCESSOR=6, TIMEOUT=7, CLIENT_SEND_ERROR=8, CODEC_EXCEPTION=9, CONNECTION_CLOSED=16,
                SERVER_SERIAL_EXCEPTION=17, SERVER_DESERIAL_EXCEPTION=18)
CODECS = (1, 11, 2)


class CaseTimeout(BaseException):
    pass


class Enough(BaseException):
    """the time budget of the harness is used up"""


class Recorder:
    def __init__(self, seed=1, tier="quick", budget=40.0, hints=None):
        self.rng = random.Random(seed)
        self.seed, self.tier, self.hints = seed, tier, hints or []
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.budget = budget
        self.cases = 0
        self.seen = set()
        self.samples = []
        self.failures = []
        self.errors = []
        self.on_fail = None

    def left(self):
        return self.budget - (time.time() - self.t0)

    def case(self, *desc):
        """counts one case; desc describes its input"""
        self.cases += 1
        k = hash(repr(desc))
        if k not in self.seen:
            self.seen.add(k)
            if len(self.samples) < 6 or (self.cases % 997 == 0 and len(self.samples) < 12):
                self.samples.append(short(desc))
        if len(self.failures) >= 8 or self.left() < 0:
            raise Enough()

    def fail(self, key, what, inp=None):
        if len(self.failures) < 8:
            self.failures.append(dict(key=key, what=what, input=short(inp, 4000)))
            if self.on_fail:
                self.on_fail()

    def check(self, cond, key, what, inp=None):
        if not cond:
            self.fail(key, what, inp)
        return bool(cond)

    def eq(self, got, want, key, what, inp=None):
        if not (type(got) is type(want) or isinstance(got, type(want))) or not (got == want):
            self.fail(key, "%s: got %s, expected %s" % (what, short(got, 600), short(want, 600)), inp)
            return False
        return True

    @contextlib.contextmanager
    def guard(self, seconds, key="hang", what="does not terminate", inp=None):
        """main thread only: a case that does not end within `seconds` is a failure"""
        def h(sig, frm):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, seconds, 0.2)
        try:
            yield
        except CaseTimeout:
            self.fail(key, "%s (within %gs)" % (what, seconds), inp)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def result(self):
        return dict(cases=self.cases, distinct=len(self.seen), samples=self.samples, failures=self.failures,
                    errors=self.errors, wall=round(time.time() - self.t0, 2))


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + "...<%d>..." % len(s) + s[-n // 4:]


# ---------------------------------------------------------------- wire format, written from the protocol document

def enc_map(m):
    out = b""
    for k, v in m.items():
        for t in (k, v):
            b = t.encode("utf-8")
            out += struct.pack(">i", len(b)) + b
    return out


def dec_map(b):
    """-> dict, or None when the block denotes no map"""
    texts = []
    p = 0
    while p < len(b):
        if p + 4 > len(b):
            return None
        n = int.from_bytes(b[p:p + 4], "big", signed=True)
        if n == -1:
            n = 0
        if n < 0 or p + 4 + n > len(b):
            return None
        try:
            texts.append(b[p + 4:p + 4 + n].decode("utf-8"))
        except UnicodeDecodeError:
            return None
        p += 4 + n
    if len(texts) % 2:
        return None
    return dict(zip(texts[::2], texts[1::2]))


def enc_req(request_id, hdr=b"", content=b"", ptype=1, cmdcode=1, codec=11, timeout=-1, cls=REQ_CLASS, proto=1, ver2=1):
    if isinstance(hdr, dict):
        hdr = enc_map(hdr)
    return struct.pack(">bbhbibiHHI", proto, ptype, cmdcode, ver2, request_id, codec, timeout,
                       len(cls), len(hdr), len(content)) + cls + hdr + content


def enc_resp(request_id, hdr=b"", content=b"", ptype=0, cmdcode=2, codec=11, status=0, cls=RESP_CLASS, proto=1, ver2=1):
    if isinstance(hdr, dict):
        hdr = enc_map(hdr)
    return struct.pack(">bbhbibhHHI", proto, ptype, cmdcode, ver2, request_id, codec, status,
                       len(cls), len(hdr), len(content)) + cls + hdr + content


class Frame(dict):
    __getattr__ = dict.__getitem__


def dec_frames(bs, request):
    """parse a byte string into complete frames; -> (list of Frame, rest)"""
    out = []
    n = 22 if request else 20
    while len(bs) >= n:
        f = Frame()
        if request:
            vals = struct.unpack(">bbhbibiHHI", bs[:22])
            names = "proto ptype cmdcode ver2 request_id codec timeout cl hl tl".split()
        else:
            vals = struct.unpack(">bbhbibhHHI", bs[:20])
            names = "proto ptype cmdcode ver2 request_id codec status cl hl tl".split()
        f.update(zip(names, vals))
        end = n + f.cl + f.hl + f.tl
        if len(bs) < end:
            break
        f["cls"] = bs[n:n + f.cl]
        f["hdr"] = bs[n + f.cl:n + f.cl + f.hl]
        f["content"] = bs[n + f.cl + f.hl:end]
        f["raw"] = bs[:end]
        out.append(f)
        bs = bs[end:]
    return out, bs


TEXTS = ["", "a", "service", "x.y", "\u00e9", "\u4e2d\u6587", "\U0001f600z", "\x00", "a\u0080b", "k" * 127, "k" * 128, "v" * 256, "\u00e9" * 150]


def rand_text(rng, big=True):
    c = rng.random()
    if c < 0.4:
        return rng.choice(TEXTS)
    n = rng.choice([1, 2, 3, 7, 20, 60]) if c < 0.97 or not big else rng.choice([255, 256, 300, 3000])
    al = rng.choice(["abcXYZ._-0", "a\u00e9\u4e2d\U0001f600\x00\n", "\u0080\u07ff\u0800\uffff"])
    return "".join(rng.choice(al) for _ in range(n))


def rand_map(rng, maxn=6):
    n = rng.choice([0, 0, 1, 2, 3, maxn])
    m = {}
    for _ in range(n):
        m[rand_text(rng)] = rand_text(rng)
    return m


def rand_bytes(rng, maxn=600):
    n = rng.choice([0, 1, 2, 4, 5, 19, 20, 21, 22, 23, 127, 128, 255, 256, maxn])
    return bytes(rng.getrandbits(8) for _ in range(n))


INTS32 = [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2 ** 24, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1]


def rand_i32(rng):
    return rng.choice(INTS32) if rng.random() < .5 else rng.randrange(-2 ** 31, 2 ** 31)


@contextlib.contextmanager
def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def recv_until(sock, cond, timeout):
    """receive until cond(bytes) or timeout/EOF; -> (bytes, eof)"""
    buf = b""
    end = time.time() + timeout
    while not cond(buf):
        left = end - time.time()
        if left <= 0:
            return buf, False
        sock.settimeout(left)
        try:
            d = sock.recv(65536)
        except socket.timeout:
            return buf, False
        except OSError:
            return buf, True
        if not d:
            return buf, True
        buf += d
    return buf, False
