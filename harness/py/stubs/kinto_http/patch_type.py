class PatchType:
    pass
class BasicPatch(PatchType):
    content_type = "application/json"
    def __init__(self, data=None, permissions=None):
        self.data, self.permissions = data, permissions
    @property
    def body(self):
        r = {}
        if self.data is not None: r["data"] = self.data
        if self.permissions is not None: r["permissions"] = self.permissions
        return r
class MergePatch(BasicPatch): pass
