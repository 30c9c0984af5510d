class _Response:
    def __init__(self, status):
        self.status_code, self.headers, self.text, self.ok = status, {}, "", False

    def json(self):
        return {"code": self.status_code, "errno": 999}


class KintoException(Exception):
    """as the real one: made of a message, with the answer of the server where there was one"""
    request = None
    response = None

    def __init__(self, message=None, exception=None):
        super().__init__(message)
        self.message, self.exception = message, exception


def answered(status, message):
    e = KintoException(f"{status} {message}")
    e.response = _Response(status)
    return e


class CollectionNotFound(KintoException): pass
class BucketNotFound(KintoException): pass
class KintoBatchException(KintoException): pass
