"""requests: every call is an HTTP request whose outcome is arbitrary"""
import json as real_json
import z3
from .. import core, sym, rt
from ..core import Unsupported
from ..sym import C, I, S, SymInt, SymStr, mkint
from ..containers import PList, PDict, Opaque, Mut, Bulk
from ..rt import Model
from ..world import NS


class RequestException(OSError): pass
class ConnectionError(RequestException): pass
class HTTPError(RequestException): pass
class Timeout(RequestException): pass
class JSONDecodeError(RequestException, ValueError): pass


SUCCESS = (True, False, None, 1, 'true', 'missing', 'any')


class Post(object):
    """one request: what was asked, what was answered (filled in as the code looks at the answer)"""
    def __init__(self, method, url, json):
        self.method, self.url, self.json = method, url, json
        self.failed = None
        self.status = None
        self.reply = 'unseen'
        self.success = 'unseen'

    def accepted(self):
        """z3: the mesh answered with status 200 and success true"""
        if self.failed is not None or self.success is not True:
            return z3.BoolVal(False)
        return self.status.t == 200 if isinstance(self.status, SymInt) else z3.BoolVal(self.status == 200)

    def answered(self):
        """a reply in the form of a JSON object"""
        return self.failed is None


class Response(Model):
    def __init__(self, rec):
        c = C()
        self.rec = rec
        t = c.fresh('status', I)
        c.assume(z3.And(t >= 100, t <= 599))
        self.status_code = mkint(t)
        rec.status = self.status_code
        self.val = None
        c.track('http status', self.status_code)

    @property
    def ok(self):
        return sym.mkbool(self.status_code.t < 400)

    def raise_for_status(self):
        if C().decide(self.status_code.t >= 400, 'error status'):
            raise HTTPError('status')

    @property
    def text(self):
        return SymStr.atom(C().fresh('body', S))

    reason = text

    def json(self, **kw):
        c = C()
        if self.val is not None:
            return self.val
        k = c.choose(len(SUCCESS) + 2, 'body')
        if k == 0:
            d = PDict()
            self.rec.success = True
            d._put('success', True)
        elif k <= len(SUCCESS) - 1:
            s = SUCCESS[k]
            d = PDict()
            if s == 'any' and s is not True:
                s = Opaque(c.fresh('success', Opaque.VAL))
            if not (isinstance(s, str) and s == 'missing'):
                d._put('success', s)
            self.rec.success = s
        elif k == len(SUCCESS):
            self.rec.reply = 'not json'
            raise JSONDecodeError('not json')
        else:
            self.rec.reply = 'not a map'
            self.val = PList.of([])
            return self.val
        if k and c.choose(2, 'error message') == 1:
            d._put('errorMessage', SymStr.atom(c.fresh('message', S)))
        self.rec.reply = d
        self.val = d
        return d


class Session(Model):
    def __init__(self):
        self.headers = PDict()
        self.trust_env = True

    def request(self, method, url, params=None, data=None, headers=None, timeout=None, json=None, **kw):
        c = C()
        if data is not None and json is None:
            json = real_json.loads(data)
        rec = Post(method.upper(), url, json)
        h = c.extra.get('on_http')
        c.extra.setdefault('posts', []).append(rec)
        c.event('http', rec)
        if h:
            h(rec)
        k = c.choose(2, 'request fails')
        if k == 1:
            rec.failed = [ConnectionError('refused'), Timeout('timed out')][c.choose(2, 'failure')]
            raise rec.failed
        return Response(rec)

    def post(self, url, data=None, json=None, **kw):
        return self.request('POST', url, data=data, json=json, **kw)

    def get(self, url, **kw):
        return self.request('GET', url, **kw)

    def put(self, url, data=None, **kw):
        return self.request('PUT', url, data=data, **kw)

    def delete(self, url, **kw):
        return self.request('DELETE', url, **kw)

    def close(self):
        pass

    def mount(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install(world, m):
    one = []

    def via(name):
        def f(*a, **kw):
            return getattr(Session(), name)(*a, **kw)
        return f
    ex = dict(RequestException=RequestException, ConnectionError=ConnectionError, HTTPError=HTTPError, Timeout=Timeout, JSONDecodeError=JSONDecodeError)
    e = NS('requests.exceptions', **ex)
    m['requests'] = NS('requests', session=Session, Session=Session, exceptions=e, post=via('post'), get=via('get'), put=via('put'), request=via('request'), **ex)
    m['requests.exceptions'] = e
