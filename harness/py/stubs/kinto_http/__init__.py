from world import world, clone
from .exceptions import KintoException, answered
from .patch_type import BasicPatch


class Session:
    def __init__(self, server_url, auth=None, retry=0):
        self.server_url, self.auth, self.nb_retry = server_url, auth, retry


class Client:
    """the parts of kinto_http.Client the repository uses or could, on the server in memory"""

    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0, retry_after=None, timeout=None, ignore_batch_4xx=False, headers=None, dry_mode=False):
        self.session = session or Session(server_url, auth, retry)
        self.bucket_name, self.collection_name = bucket, collection

    def _c(self, collection):
        return collection or self.collection_name

    def server_info(self):
        return world().op("kinto", "server_info", lambda: {"capabilities": {"attachments": {"base_url": world().base_url}, "signer": {}}, "settings": {}})

    def get_collection(self, *, id=None, bucket=None):
        name = self._c(id)
        def f():
            c = world().collection(name)
            r = {"data": {"id": name, "status": c["status"], "last_modified": c["last_modified"]}, "permissions": {}}
            return world().answer(name, r) if hasattr(world(), "answer") else r
        return world().op("kinto", f"get_collection {name}", f)

    def patch_collection(self, *, id=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None):
        name = self._c(id or (original or {}).get("id"))
        if changes is None:
            changes = BasicPatch(data)
        def f():
            w = world()
            c = w.collection(name)
            lm = if_match or (original or {}).get("last_modified")
            if safe and lm is not None and lm != c["last_modified"]:
                raise answered(412, "collection was modified meanwhile")
            d = changes.data or {}
            w.touch(name, wip=False)
            if "status" in d:
                st = d["status"]
                if st == "to-sign":
                    st = "signed"
                    w.signed(name) if hasattr(w, "signed") else None
                elif st == "to-review":
                    w.reviewed(name) if hasattr(w, "reviewed") else None
                c["status"] = st
            return {"data": {"id": name, "status": c["status"], "last_modified": c["last_modified"]}, "permissions": {}}
        return world().op("kinto", f"patch_collection {name} {changes.data}", f, mutating=True)

    def get_records(self, *, collection=None, bucket=None, **kw):
        name = self._c(collection)
        return world().op("kinto", f"get_records {name}", lambda: [clone(r) for r in world().listing(name)])

    def get_record(self, *, id, collection=None, bucket=None):
        name = self._c(collection)
        def f():
            r = world().collection(name)["records"].get(id)
            if r is None:
                raise answered(404, "record not found")
            return {"data": clone(r), "permissions": {}}
        return world().op("kinto", f"get_record {name} {id}", f)

    def create_record(self, *, id=None, bucket=None, collection=None, data=None, permissions=None, safe=True, if_not_exists=False):
        name = self._c(collection)
        data = clone(data or {})
        rid = id or data.get("id") or world().new_id()
        def f():
            w = world()
            if safe and rid in w.collection(name)["records"]:
                raise answered(412, "record exists")
            data["id"] = rid
            data["last_modified"] = w.touch(name)
            w.collection(name)["records"][rid] = data
            w.created.add(rid)
            return {"data": clone(data), "permissions": permissions or {}}
        return world().op("kinto", f"create_record {name} {rid}", f, mutating=True)

    def update_record(self, *, id=None, collection=None, bucket=None, data=None, permissions=None, safe=True, if_match=None):
        name = self._c(collection)
        data = clone(data or {})
        rid = id or data.get("id")
        def f():
            w = world()
            data["id"] = rid
            data["last_modified"] = w.touch(name)
            w.collection(name)["records"][rid] = data
            return {"data": clone(data), "permissions": {}}
        return world().op("kinto", f"update_record {name} {rid}", f, mutating=True)

    def patch_record(self, *, id=None, collection=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None):
        name = self._c(collection)
        rid = id or (original or {}).get("id") or (data or {}).get("id")
        d = clone((changes.data if changes is not None else data) or {})
        def f():
            w = world()
            r = w.collection(name)["records"].get(rid)
            if r is None:
                raise answered(404, "record not found")
            r.update(d)
            r["last_modified"] = w.touch(name)
            return {"data": clone(r), "permissions": {}}
        return world().op("kinto", f"patch_record {name} {rid}", f, mutating=True)

    def delete_record(self, *, id, collection=None, bucket=None, safe=True, if_match=None, if_exists=False):
        name = self._c(collection)
        def f():
            w = world()
            if id not in w.collection(name)["records"]:
                if if_exists:
                    return None
                raise answered(404, "record not found")
            del w.collection(name)["records"][id]
            w.touch(name)
            return {"id": id, "deleted": True}
        return world().op("kinto", f"delete_record {name} {id}", f, mutating=True)

    def delete_records(self, *, collection=None, bucket=None, safe=True, if_match=None):
        name = self._c(collection)
        def f():
            w = world()
            w.collection(name)["records"].clear()
            w.touch(name)
            return []
        return world().op("kinto", f"delete_records {name}", f, mutating=True)
