class GoogleAPIError(Exception): pass
class RetryError(GoogleAPIError):
    def __init__(self, message, cause=None):
        super().__init__(message); self.cause = cause
class GoogleAPICallError(GoogleAPIError):
    code = None
    def __init__(self, message, *a, **k):
        super().__init__(message); self.message = message
class ClientError(GoogleAPICallError): pass
class ServerError(GoogleAPICallError): pass
class NotFound(ClientError): code = 404
class Forbidden(ClientError): code = 403
class PreconditionFailed(ClientError): code = 412
class TooManyRequests(ClientError): code = 429
class InternalServerError(ServerError): code = 500
class ServiceUnavailable(ServerError): code = 503
class DeadlineExceeded(ServerError): code = 504
