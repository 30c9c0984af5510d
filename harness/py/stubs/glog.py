import os, sys
_on = bool(os.environ.get("VERIF_DEBUG"))
def _l(level):
    def f(msg, *a, **k):
        try:
            s = str(msg) % a if a else str(msg)
        except Exception as e:
            s = f"{msg} {a}"
        if _on:
            print(f"      {level}: {s}", file=sys.stderr)
    return f
debug, info, warning, error, critical, exception, fatal = (_l(x) for x in ("debug", "info", "warning", "error", "critical", "exception", "fatal"))
warn = warning
def setLevel(l): pass
def init(*a, **k): pass
class _L:
    def __getattr__(self, n): return globals()[n]
logger = _L()
