class RequestException(IOError):
    def __init__(self, *a, response=None, request=None):
        super().__init__(*a)
        self.response, self.request = response, request
class HTTPError(RequestException): pass
class ConnectionError(RequestException): pass
class Timeout(RequestException): pass
class JSONDecodeError(RequestException, ValueError): pass
