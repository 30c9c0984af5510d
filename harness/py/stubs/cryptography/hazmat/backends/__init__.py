def default_backend(): return None
