class _L:
    def __getattr__(self, n):
        return lambda *a, **k: None
    def __bool__(self):
        return True
logger = _L()
