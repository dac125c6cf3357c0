"""A numpy generator whose small integer draws are answered by the check; everything else is the real generator."""
import contextlib
import numpy as np

_real = np.random.default_rng


class Scripted(np.random.Generator):
    choose = None
    small = 16

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        if endpoint:
            hi = hi + 1
        if self.choose is None or not (np.isscalar(lo) and np.isscalar(hi)) or hi - lo > self.small or hi - lo < 1:
            return super().integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        lo, hi = int(lo), int(hi)
        if size is None:
            return np.int64(lo + self.choose(hi - lo))
        n = int(np.prod(size))
        return np.array([lo + self.choose(hi - lo) for _ in range(n)], dtype=dtype).reshape(size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.isscalar(a) else np.asarray(list(a) if isinstance(a, range) else a)
        if self.choose is None or p is not None or len(arr) > self.small or axis != 0:
            return super().choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        n = 1 if size is None else int(np.prod(size))
        pool = list(range(len(arr)))
        out = []
        for _ in range(n):
            k = self.choose(len(pool))
            out.append(pool[k])
            if not replace:
                pool.pop(k)
        if size is None:
            return arr[out[0]]
        return arr[out].reshape(tuple(np.atleast_1d(size)) + arr.shape[1:])


@contextlib.contextmanager
def scripted(choose):
    """inside, np.random.default_rng(seed) returns generators answered by choose"""
    class G(Scripted):
        pass
    G.choose = staticmethod(choose)

    def make(seed=None):
        return G(_real(seed).bit_generator)
    np.random.default_rng = make
    try:
        yield
    finally:
        np.random.default_rng = _real
