class StatsClient:
    def __init__(self, *a, **k): pass
    def incr(self, *a, **k): pass
    def gauge(self, *a, **k): pass
    def timing(self, *a, **k): pass
