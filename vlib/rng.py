"""A random state whose answers the explorer decides: all calls are answered by a seeded generator except one
(the deviation), which gets an extreme answer."""
import numpy as np

LO, HI = 2.0 ** -30, 1.0 - 2.0 ** -30
PATTERNS = ("lo", "hi", "lohi", "hilo")


def _pattern(shape, pat):
    n = int(np.prod(shape)) if shape != () else 1
    idx = np.arange(n)
    if pat == "lo":
        u = np.full(n, LO)
    elif pat == "hi":
        u = np.full(n, HI)
    elif pat == "lohi":
        u = np.where(idx % 2 == 0, LO, HI)
    else:
        u = np.where(idx % 2 == 0, HI, LO)
    return u.reshape(shape)


class ScriptedState(np.random.RandomState):
    """deviates from the seeded generator in the answer to call number `pos` only"""

    def __init__(self, seed=5, pos=None, pat="lo"):
        super().__init__(seed)
        self.pos, self.pat, self.calls = pos, pat, 0

    def _hit(self):
        self.calls += 1
        return self.pos is not None and self.calls - 1 == self.pos

    def _shape(self, size):
        if size is None:
            return ()
        return tuple(size) if isinstance(size, (tuple, list, np.ndarray)) else (int(size),)

    def random_sample(self, size=None):
        val = super().random_sample(size)
        if not self._hit():
            return val
        out = _pattern(self._shape(size), self.pat)
        return float(out) if size is None else out

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *dims):
        return self.random_sample(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (high - low) * self.random_sample(size)

    def randint(self, low, high=None, size=None, dtype=int):
        val = super().randint(low, high, size, dtype)
        if not self._hit():
            return val
        if high is None:
            low, high = 0, low
        out = np.floor(low + _pattern(self._shape(size), self.pat) * (np.asarray(high) - low)).astype(dtype)
        return dtype(out) if size is None and np.ndim(out) == 0 else out

    def choice(self, a, size=None, replace=True, p=None):
        val = super().choice(a, size, replace, p)
        if not self._hit():
            return val
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        ok = np.arange(len(pool)) if p is None else np.where(np.asarray(p) > 0)[0]
        shape = self._shape(size)
        n = int(np.prod(shape)) if shape != () else 1
        if replace:
            u = _pattern((n,), self.pat)
            idx = ok[np.minimum((u * len(ok)).astype(int), len(ok) - 1)]
        else:
            order = {"lo": ok, "hi": ok[::-1], "lohi": np.concatenate([ok[::2], ok[1::2]]),
                     "hilo": np.concatenate([ok[1::2], ok[::2]])}[self.pat]
            idx = order[:n]
        out = pool[idx]
        return out[0] if size is None else out.reshape(shape)

    def _gauss(self, size):
        u = _pattern(self._shape(size), self.pat)
        return np.where(u < 0.5, -3.0, 3.0)

    def standard_normal(self, size=None):
        val = super().standard_normal(size)
        if not self._hit():
            return val
        out = self._gauss(size)
        return float(out) if size is None else out

    def randn(self, *dims):
        return self.standard_normal(dims if dims else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def permutation(self, x):
        val = super().permutation(x)
        if not self._hit():
            return val
        pool = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return pool if self.pat in ("lo", "lohi") else pool[::-1].copy()

    def shuffle(self, x):
        if self._hit():
            super().shuffle(list(range(len(x))))
            if self.pat in ("hi", "hilo"):
                x[:] = x[::-1].copy() if isinstance(x, np.ndarray) else list(x)[::-1]
            return
        super().shuffle(x)
