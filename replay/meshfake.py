"""A fake HTTP transport below `requests`: records every request, answers as told."""
import json, threading
from unittest import mock
import requests
BASE = "http://127.0.0.1:13330/"


class Mesh:
    def __init__(self, answer=None):
        self.log = []
        self.answer = answer or (lambda method, url, body: (200, {"success": True}))
        self.lock = threading.Lock()

    def send(self, sess, req, **kw):
        body = req.body
        if isinstance(body, (bytes, bytearray)):
            body = body.decode()
        try:
            body = json.loads(body) if body else None
        except ValueError:
            pass
        with self.lock:
            self.log.append((req.method, req.url, body))
        a = self.answer(req.method, req.url, body)
        if isinstance(a, BaseException):
            raise a
        st, content = a
        r = requests.Response()
        r.status_code = st
        r.url = req.url
        r.request = req
        r._content = content if isinstance(content, bytes) else json.dumps(content).encode()
        r.headers["Content-Type"] = "application/json"
        return r

    def __enter__(self):
        me = self
        self.p = mock.patch.object(requests.Session, "send", lambda sess, req, **kw: me.send(sess, req, **kw))
        self.p.start()
        return self

    def __exit__(self, *a):
        self.p.stop()

    def take(self):
        l, self.log = self.log, []
        return l
