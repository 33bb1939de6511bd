"""Collects what one task found: used by the checks that compare the implementation with an executable model."""
import traceback


class Report:
    def __init__(self, part, limit=5):
        self.part, self.viol, self.n, self.t, self.out, self.limit = part, [], 0, 0, set(), limit

    def bad(self, msg, **key):
        if len(self.viol) < self.limit:
            key = {"kind": self.part, **{k: str(v) for k, v in key.items()}}
            self.viol.append(dict(kind=self.part, key=key, msg=f"{self.part}: {msg}"))

    def call(self, fun, *args, what="", key=None, **kw):
        """run code under test; an exception is a violation"""
        try:
            return True, fun(*args, **kw)
        except Exception as exc:  # pylint: disable=broad-except
            where = traceback.extract_tb(exc.__traceback__)[-1]
            self.bad(f"{what} raised {type(exc).__name__}: {exc} ({where.filename.rsplit('/', 1)[-1]}:{where.name})",
                     exc=type(exc).__name__, **(key or {}))
            return False, None

    def done(self, **extra):
        return {"n": self.n, "t": max(self.t, self.n), "out": sorted(map(str, self.out)), "v": self.viol, "extra": extra}
