import functools
from world import world
from . import exceptions as e

def if_transient_error(x):
    return isinstance(x, (e.InternalServerError, e.TooManyRequests, e.ServiceUnavailable)) or type(x).__name__ == "ConnectionError"

class Retry:
    def __init__(self, predicate=if_transient_error, initial=1.0, maximum=60.0, multiplier=2.0, timeout=120.0, deadline=None, on_error=None, **kw):
        self.p, self.i, self.max, self.m, self.d = predicate, initial, maximum, multiplier, (deadline if deadline is not None else timeout)
    def __call__(self, f, on_error=None):
        @functools.wraps(f)
        def g(*a, **k):
            w, start, delay = world(), world().now, self.i
            while True:
                try:
                    return f(*a, **k)
                except Exception as x:
                    if not self.p(x):
                        raise
                    if w.now + delay - start > self.d:
                        raise e.RetryError("deadline exceeded", x) from x
                    w.sleep(delay)
                    delay = min(delay * self.m, self.max)
        return g
