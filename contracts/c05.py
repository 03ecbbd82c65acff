"""C05: request ids are in range and not reused within a full cycle."""
from .kit import *

N = 2 ** 31


@goal('C05', 'the id generator: range, and no repetition within 2^31 draws', covers=('start',))
def generator(c):
    w = World(c)
    g = w('anthunder.helpers.request_id:RequestId')
    from pyvc.models.base import Cycle, Count, Mapped
    c.sess.assumptions.add('drawing from an itertools iterator is atomic under the GIL (one draw per next())')
    c.prove(isinstance(g, (Cycle, Count, Mapped)), 'ids are drawn from a fixed sequence of ids', show(g))
    c.cover('start')
    if isinstance(g, Cycle):
        c.prove(g.n >= N, 'the cycle holds at least 2^31 ids')
    p, q = z3.Const('p', I), z3.Const('q', I)
    c.track('p', mkint(p)); c.track('q', mkint(q))
    c.assume(z3.And(p >= 0, q > p, q < p + N))
    a, b = g.at(p), g.at(q)
    c.prove(z3.And(zi(a) >= 0, zi(a) < N), 'every id is between 0 and 2^31-1')
    c.prove(zi(a) != zi(b), 'two ids within 2^31 consecutive draws differ')


def stateful(c, w):
    """the generator after an arbitrary number of draws"""
    g = w('anthunder.helpers.request_id:RequestId')
    p = z3.Const('drawn', I)
    c.assume(p >= 0)
    g.pos = mkint(p)
    return g, p


@goal('C05', 'every new request carries the next freshly drawn id', covers=('two',))
def fresh_ids(c):
    w = World(c)
    header_contracts(c)
    g, p = stateful(c, w)
    kinds = (w('anthunder.protocol:BoltRequest'), w('anthunder.command.heartbeat:HeartbeatRequest'))
    for n in range(2):
        if c.choose(2, 'kind') == 0:
            o = attempt(kinds[0].new_request, header_map(c, w), bytestr(c, 'content'))
            if o[0] == 'err':
                return
        else:
            o = attempt(kinds[1].new_request)
        c.prove(o[0] == 'ok', 'a request can be made', show(o))
        c.prove(core.zb(rt.getattr_(o[1], 'request_id') == g.at(z3.simplify(p + n))), 'the request carries the next id')
        c.prove(zi(g.pos) == p + n + 1, 'exactly one id is drawn per request')
    c.cover('two')
