"""C06: the asyncio client hands each caller its own response.

_recv_response: one arbitrary iteration on an arbitrary stream, with arbitrary calls waiting.  invoke: one arbitrary call among
arbitrary others (see client.py)."""
from .client import *
from .server import Frame


def receiving(c, w, check):
    header_contracts(c)
    cl = client(c, w)
    reader, writer = aio.StreamReader(), aio.StreamWriter()
    req, res = rt.getattr_(cl, 'request_mapping'), rt.getattr_(cl, 'response_mapping')
    c.extra['cut_whiles'] = c.extra['one_iteration'] = True
    c.extra['managed'] = (reader, writer, req, res)
    c.extra['cheap'] = True
    st = {}

    def head(loop):
        p0 = c.fresh('boundary', I)
        c.assume(z3.And(p0 >= 0, p0 <= z3.Length(reader.wire)))
        object.__setattr__(reader, 'pos', mkint(p0))
        object.__setattr__(reader, 'broken', None)
        st['p0'] = p0
        f = st['frame'] = Frame(c, p0, request=False)
        reader.describe(p0, f.rope)
        st['sets'] = len(c.trace)
        for m, nm, val in ((req, 'waiting', Ev), (res, 'responses', Opaque)):
            m._set('segs', sym_map(nm, key='int', val='val')[0].segs)
            b = m.segs[0][1]
            vf = b.valfn
            m._set('segs', [('b', Bulk(b.n, b.keyfn, lambda i, vf=vf, val=val: val(vf(i).t), ident=b.ident))])
            d = PDict()
            d.segs = [('b', m.segs[0][1].clone())]
            st[nm] = d
        # (an id somebody waits for has no response stored yet)
        st['event'] = lookup(req, f.rid)
        if st['event'] is not None:
            c.assume(lookup(res, f.rid) is None)
    c.extra['loop_head'] = head

    def end(how):
        check(st, st['frame'], reader, writer, req, res, how)
    c.extra['loop_backedge'] = lambda loop, seg: end('next')
    st['o'] = attempt_co(lambda: rt.callm(cl, '_recv_response', reader, writer))
    if 'frame' not in st:
        raise Unsupported('the receive loop was not reached')
    end('over')


def acceptable(c, f):
    """the frame is a response that can be decoded; 'undecided' when the code never looked"""
    h = f.header()
    ok = c.decide(z3.And(*[one_of(getattr(f, n), ENUMS[k]) for n, k in (('proto', 'proto'), ('ptype', 'ptype'), ('cmd', 'cmdcode'), ('ver2', 'ver2'), ('codec', 'codec'), ('last', 'respstatus'))]),
                  'known codes')
    return ok and h is not None


def received(c, st, f, reader, writer, req, res, how):
    ev = st['event']
    sets = [e[1] for e in c.trace[st['sets']:] if e[0] == 'set']
    x = c.fresh('other_id', I)
    c.assume(x != sym.zi(f.rid))
    for m, nm in ((req, 'waiting'), (res, 'responses')):
        same_entries(c, m, st[nm], mkint(x), 'the %s of other ids are left alone' % nm)
    c.prove(len(sets) <= 1 and all(s is ev or (ev is not None and core.zb(veq(s, ev))) for s in sets), "no other call's event is set", lambda: rep(sets))
    now = lookup(req, f.rid)
    p, q = lookup(res, f.rid), lookup(st['responses'], f.rid)
    same = (p is None) == (q is None) and (p is None or p is q or core.zb(veq(p, q)))
    if reader.broken is not None:
        c.cover('over')
        c.prove(how == 'over', 'nothing more is read from a connection that is gone')
        c.prove(st['o'][0] == 'ok' or isinstance(st['o'][1], asyncio.CancelledError), 'the receiver ends quietly', show(st['o']))
        c.prove(writer.closed, 'the connection is closed')
        c.prove(same, 'an incomplete response is not delivered')
        if ev is None:
            c.prove(now is None, 'an unknown id stays unknown')
        else:
            c.prove((now is None) == (len(sets) == 1), 'a call that is not waited for any more is woken up')
        return
    if how == 'next':
        c.prove(sym.zi(reader.pos) == f.end, 'exactly the bytes of one frame are consumed', lambda: str(reader.pos))
        c.prove(not writer.closed, 'the connection stays open for the next response')
    else:
        c.prove(writer.closed, 'the connection is closed when the receiver ends')
    if ev is None:
        c.cover('unknown')
        c.prove(now is None, 'an unknown id stays unknown')
        c.prove(same, 'a response with an unknown id is ignored')
        c.prove(how == 'next', 'a response with an unknown id does not end the connection', show(st.get('o', ('ok', None))))
        return
    c.prove(now is None and len(sets) == 1, 'the caller is woken up, once, and not waited for again')
    good = acceptable(c, f)
    if good and not c.decide(f.cmd == 1, 'a request'):
        c.cover('delivered')
        c.prove(how == 'next', 'a proper response does not end the connection', show(st.get('o', ('ok', None))))
        c.prove(p is not None and q is None, 'the response is delivered')
        for attr, v in (('request_id', f.rid), ('content', f.content), ('cmdcode', f.cmd), ('respstatus', f.last), ('ptype', f.ptype)):
            got = rt.getattr_(p, attr)
            got = got.t if hasattr(got, 't') and attr not in ('request_id', 'content') else got
            c.prove(core.zb(veq(got, v)) if attr in ('request_id', 'content') else core.zb(sym.zi(got) == v), "what is delivered is the frame's %s" % attr, lambda: rep(got))
    else:
        c.cover('unacceptable')
        c.prove(same, 'a frame that is no response is not delivered')


@goal('C06', 'one received frame: delivered to the call with its id, once, or ignored', covers=('delivered', 'unacceptable', 'unknown', 'over'), parallel=True)
def recv(c):
    w = World(c)
    receiving(c, w, lambda st, *a: received(c, st, *a))


def returned(c, w, k, call):
    o, m = call.o, call.maps
    if k == 'oneway':
        c.prove(o[0] == 'err' or o[1] is None, 'a one-way call returns nothing', show(o))
        return
    if o[0] == 'ok':
        c.prove(m.acted == 'ok' and o[1] is m.resp, 'what is returned is the response received for its own id', show(o))
        c.prove(core.zb(veq(rt.getattr_(o[1], 'request_id'), call.rid)), 'with the id of the call')
        st, cmd = rt.getattr_(m.resp, 'respstatus'), rt.getattr_(m.resp, 'cmdcode')
        if k == 'call':
            c.cover('answered')
            c.prove(z3.And(sym.zi(st.t) == 0, sym.zi(cmd.t) == 2), 'only a success response is returned', lambda: rep((st, cmd)))
        else:
            c.cover('heartbeat')
    else:
        c.cover('error')


@goal('C06', 'a call returns the success response with its own id, or an error', covers=('answered', 'heartbeat', 'error'), parallel=True)
def invoke(c):
    w = World(c)
    cl = client(c, w)
    k, r = request(c, w)
    call = Call(c, w, cl, r)
    call.run(**(dict(address=call.addr) if k == 'heartbeat' else {}))
    returned(c, w, k, call)
    call.maps.guarantee('at the end')
