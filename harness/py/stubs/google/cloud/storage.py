import sys, types
from world import world
from google.api_core import exceptions as exc

PAGE = 2

class _Conn:
    def api_request(self, method=None, path=None, query_params=None, **k):
        bucket = path.split("/")[2]
        prefix, delim = query_params.get("prefix", ""), query_params.get("delimiter")
        def f():
            seen, items = [], []
            for n in sorted(world().objects(bucket)):
                if not n.startswith(prefix):
                    continue
                rest = n[len(prefix):]
                if delim and delim in rest:
                    d = prefix + rest.split(delim)[0] + delim
                    if d not in seen:
                        seen.append(d)
                else:
                    items.append({"name": n})
            start = int(query_params.get("pageToken") or 0)
            both = [("p", s) for s in seen] + [("i", i) for i in items]
            page = both[start:start + PAGE]
            r = {"prefixes": [v for k, v in page if k == "p"], "items": [v for k, v in page if k == "i"]}
            if start + PAGE < len(both):
                r["nextPageToken"] = str(start + PAGE)
            return r
        return world().op("gcs", f"list {prefix}", f)

class Blob:
    def __init__(self, name, bucket, **k):
        self.name, self.bucket = name, bucket
    @property
    def public_url(self): return f"https://storage.example/{self.bucket.name}/{self.name}"
    @property
    def _o(self): return world().objects(self.bucket.name)
    def exists(self, *a, **k):
        return world().op("gcs", f"exists {self.name}", lambda: self.name in self._o)
    def download_as_bytes(self, *a, **k):
        def f():
            if self.name not in self._o:
                raise exc.NotFound(self.name)
            return self._o.get(self.name)
        return world().op("gcs", f"read {self.name}", f)
    download_as_string = download_as_bytes
    def download_as_text(self, *a, **k): return self.download_as_bytes().decode()
    def download_to_file(self, file_obj, *a, **k):
        def f():
            if self.name not in self._o:
                raise exc.NotFound(self.name)
            return self._o.get(self.name)
        try:
            b = world().op("gcs", f"download {self.name}", f)
        except exc.ServiceUnavailable:
            b = self._o.get(self.name, b"")
            file_obj.write(b[:len(b) // 2])
            raise
        file_obj.write(b)
    def download_to_filename(self, name, *a, **k):
        with open(name, "wb") as f:
            self.download_to_file(f)
    def _put(self, data):
        world().op("gcs", f"write {self.name}", lambda: world().put_object(self.bucket.name, self.name, data), mutating=True)
    def upload_from_filename(self, filename, *a, **k):
        with open(filename, "rb") as f:
            self._put(f.read())
    def upload_from_file(self, fobj, *a, **k): self._put(fobj.read())
    def upload_from_string(self, data, *a, **k): self._put(data.encode() if isinstance(data, str) else data)
    def delete(self, *a, **k):
        world().op("gcs", f"delete {self.name}", lambda: self._o.pop(self.name, None), mutating=True)

class Bucket:
    def __init__(self, client, name=None, **k):
        self.client, self.name = client, name
    def blob(self, name, **k): return Blob(name, self)
    def get_blob(self, name, **k):
        b = Blob(name, self)
        return b if b.exists() else None
    def copy_blob(self, blob, destination_bucket, new_name=None, **k):
        n = new_name or blob.name
        world().op("gcs", f"copy {blob.name} {n}", lambda: world().put_object(destination_bucket.name, n, world().objects(self.name).get(blob.name)), mutating=True)
        return Blob(n, destination_bucket)
    def list_blobs(self, *a, **k): return self.client.list_blobs(self, *a, **k)

class _List:
    def __init__(self, blobs, prefixes): self.b, self.prefixes = blobs, set(prefixes)
    def __iter__(self): return iter(self.b)
    @property
    def pages(self): return iter([self.b])

class Client:
    def __init__(self, *a, **k):
        self._connection = _Conn()
    def get_bucket(self, name, *a, **k):
        return world().op("gcs", f"bucket {name}", lambda: Bucket(self, name))
    def bucket(self, name, *a, **k): return Bucket(self, name)
    def list_blobs(self, bucket, prefix=None, delimiter=None, **k):
        if isinstance(bucket, str):
            bucket = Bucket(self, bucket)
        items, pre, tok = [], [], None
        while True:
            q = {"prefix": prefix or "", "delimiter": delimiter}
            if tok: q["pageToken"] = tok
            r = self._connection.api_request(path=f"/b/{bucket.name}/o", query_params=q)
            pre += r["prefixes"]; items += [Blob(i["name"], bucket) for i in r["items"]]
            tok = r.get("nextPageToken")
            if not tok: break
        return _List(items, pre)

blob = types.SimpleNamespace(Blob=Blob)
bucket = types.SimpleNamespace(Bucket=Bucket)
