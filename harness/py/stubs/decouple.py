import os
def config(name, default=None, cast=None):
    v = os.environ.get(name, default)
    return cast(v) if cast else v
