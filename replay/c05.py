"""C05: request ids."""
import ast, itertools, random, threading
from unittest import mock
from lib import *
import anthunder.helpers.request_id as RI
from anthunder.protocol import BoltRequest, SofaHeader
from anthunder.command.heartbeat import HeartbeatRequest

SRC = open(RI.__file__).read()
MAX = 2 ** 31 - 1


class Scale(ast.NodeTransformer):
    """the same module with the id space scaled down: constants 2^31-1 and 2^31 become k and k+1"""
    def __init__(self, k):
        self.k, self.hit = k, 0

    def visit(self, node):
        if isinstance(node, (ast.BinOp, ast.Constant, ast.UnaryOp)):
            try:
                v = eval(compile(ast.Expression(node), "c", "eval"), {"__builtins__": {}})
            except Exception:
                v = None
            if type(v) is int and v in (MAX, MAX + 1):
                self.hit += 1
                return ast.copy_location(ast.Constant(self.k + v - MAX), node)
        return self.generic_visit(node)


def load(start, k=None):
    """executes the module's source with the random starting point fixed (and the id space scaled down)"""
    tree = ast.parse(SRC)
    hit = 1
    if k is not None:
        s = Scale(k)
        tree = ast.fix_missing_locations(s.visit(tree))
        hit = s.hit
    ns = {"__name__": "request_id_copy", "__file__": RI.__file__}
    rnd = mock.Mock(side_effect=lambda a, b=None: start)
    with mock.patch.object(random, "randint", rnd), mock.patch.object(random, "randrange", rnd):
        exec(compile(tree, RI.__file__, "exec"), ns)
    return ns["RequestId"], hit, rnd


def run(R):
    for start in (0, 1, 2, 5, 1000, MAX - 2000, MAX - 3, MAX - 1, MAX):
        n = 3000
        R.case("start", start, n)
        with R.guard(60, "hang", "drawing ids", start):
            it, _, rnd = load(start)
            ids = [next(it) for _ in range(n)]
            R.check(all(type(i) is int and 0 <= i <= MAX for i in ids), "range", "id out of range: %r" % [i for i in ids if not (type(i) is int and 0 <= i <= MAX)][:3], start)
            R.check(len(set(ids)) == n, "reuse", "an id was handed out twice within %d draws" % n, start)
            if rnd.call_args_list:
                a = rnd.call_args_list[0].args
                R.check(all(isinstance(x, int) for x in a) and a[0] >= 0 and a[-1] <= MAX + 1, "range", "starting point drawn from %r" % (a,), a)
    for k in (1, 2, 7, 16, 63):
        for start in range(k + 1):
            R.case("scaled", k, start)
            with R.guard(20, "hang", "drawing ids", (k, start)):
                it, hit, rnd = load(start, k)
                ids = list(itertools.islice(it, 4 * (k + 1) + 3))
                if not hit or max(ids) > 4 * k + 8:
                    continue    # the source does not scale this way
                R.check(all(0 <= i <= k for i in ids), "range", "id out of range with the id space scaled to 0..%d: %r" % (k, ids[:40]), (k, start))
                for a in range(len(ids) - k):
                    w = ids[a:a + k + 1]
                    if not R.check(len(set(w)) == len(w), "reuse", "id handed out twice within a full cycle (id space scaled to 0..%d): %r" % (k, ids[:40]), (k, start)):
                        break
    ids = []
    for i in range(2000):
        R.case("mixed", i)
        ids.append(BoltRequest.new_request(SofaHeader(), b"", timeout_ms=5).request_id if i % 3 else HeartbeatRequest.new_request().request_id)
        if i % 5 == 0:
            ids.append(next(RI.RequestId))
    R.check(len(set(ids)) == len(ids), "reuse", "two new messages got the same request id", "business and heartbeat requests in turn")
    R.check(all(type(i) is int and 0 <= i <= MAX for i in ids), "range", "id out of range", "new messages")
    # every new message takes exactly the next draw, whatever its value
    import anthunder.command.heartbeat as HB
    from anthunder.protocol import _request_pkg as RQ
    if hasattr(HB, "RequestId") and hasattr(RQ, "RequestId"):
        for start in (0, 7, MAX - 2):
            log = []

            def draws(start=start):
                x = start
                while True:
                    log.append(x)
                    yield x
                    x = (x + 1) % (MAX + 1)
            g = draws()
            with mock.patch.object(HB, "RequestId", g), mock.patch.object(RQ, "RequestId", g):
                for i in range(9):
                    R.case("one draw", start, i)
                    k = len(log)
                    rid = (BoltRequest.new_request(SofaHeader(), b"") if i % 3 == 1 else HeartbeatRequest.new_request()).request_id
                    if len(log) == k:
                        break       # it draws from elsewhere
                    R.check(log[k:] == [rid], "draw", "a new %s request with id %d drew %r" % ("business" if i % 3 == 1 else "heartbeat", rid, log[k:]), (start, i))
    out = []
    def work():
        loc = [(BoltRequest.new_request(SofaHeader(), b"") if j % 2 else HeartbeatRequest.new_request()).request_id for j in range(1500)]
        out.extend(loc)
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work) for _ in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(sw)
    R.case("threads", len(out))
    R.check(len(set(out)) == len(out) == 9000, "reuse", "threads drew the same id", "6 threads x 1500 requests")
