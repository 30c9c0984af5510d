import json as _json, re
from world import world
from . import exceptions, auth
from .exceptions import *


class Response:
    def __init__(self, status, content=b""):
        self.status_code, self.content, self.headers = status, content, {}
    @property
    def text(self): return self.content.decode("utf-8", "replace")
    @property
    def ok(self): return self.status_code < 400
    def json(self): return _json.loads(self.content)
    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code}", response=self)


def get(url, **kw):
    def f():
        w = world()
        if url in w.web:
            v = w.web[url]
            return Response(*v) if isinstance(v, tuple) else Response(200, v)
        if url.startswith(w.base_url) and url[len(w.base_url):] in w.attachments:
            return Response(200, w.attachments[url[len(w.base_url):]])
        return Response(404, b"not found")
    return world().op("web", "GET " + url, f)


def post(url, files=None, auth=None, **kw):
    m = re.search(r"buckets/([^/]+)/collections/([^/]+)/records/([^/]+)/attachment$", url)
    (_, (fname, content, mime)), = files
    if hasattr(content, "read"):
        content = content.read()
    def f():
        w = world()
        if m is None or m.group(3) not in w.collection(m.group(2))["records"]:
            return Response(404, b"no such record")
        w.attach(m.group(2), m.group(3), fname, content, mime)
        return Response(200, b"{}")
    import kinto_http.exceptions as k
    try:
        return world().op("kinto", "attach " + (f"{m.group(2)} {m.group(3)} {fname}" if m else url), f, mutating=True)
    except k.KintoException as e:  # at this level a server error is an answer
        return Response(503, str(e).encode())
