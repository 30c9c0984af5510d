class HTTPIterator:
    """pages of two items, as the service may choose"""
    def __init__(self, client=None, api_request=None, path=None, item_to_value=None, items_key="items", page_token=None, page_size=None, max_results=None, extra_params=None, **kw):
        self.req, self.path, self.val, self.key, self.params = api_request, path, item_to_value, items_key, dict(extra_params or {})
    def __iter__(self):
        token = None
        while True:
            p = dict(self.params)
            if token:
                p["pageToken"] = token
            r = self.req(method="GET", path=self.path, query_params=p)
            for i in r.get(self.key, ()):
                yield self.val(self, i) if self.val else i
            token = r.get("nextPageToken")
            if not token:
                return
