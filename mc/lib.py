"""Enumerators and plain float64 reference formulas used by several checks."""
import contextlib
import itertools
import logging
import numpy as np
import core


def matrices(rows, cols, alphabet):
    """every rows x cols matrix over the alphabet"""
    for c in itertools.product(alphabet, repeat=rows * cols):
        yield np.array(c, dtype=float).reshape(rows, cols)


def nth_matrix(k, rows, cols, alphabet):
    n = len(alphabet)
    out = []
    for _ in range(rows * cols):
        out.append(alphabet[k % n])
        k //= n
    return np.array(out, dtype=float).reshape(rows, cols)


def q_true(V, U, W, H):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    return float((((V - W @ H) / U) ** 2).sum())


def q_robust(V, U, W, H, alpha=4.0):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    s = np.abs((V - W @ H) / U)
    return float(np.where(s > alpha, alpha * s, s * s).sum())


def q_noise(V, U, W, H):
    """scale of what rounding of float32 arithmetic can do to Q"""
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    r = np.abs(V - W @ H)
    mag = np.abs(V) + np.abs(W) @ np.abs(H)
    e = 6e-7 * mag
    return float((((2 * r * e + e * e) / U ** 2)).sum())


def close(a, b, rel=1e-5, abs_=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))) | ((a == b))))


def same(a, b):
    """bitwise equal arrays (NaN equals NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def SA(V, U, factors, **kw):
    sa = core.esat("esat.model.sa").SA
    with core.NoRustLeft():
        return sa(V=V, U=U, factors=factors, **kw)


def key(*arrays):
    return tuple(np.asarray(a, dtype=np.float64).round(9).tobytes() for a in arrays)


def interleavings(*counts):
    """every merge order of len(counts) sequences with the given lengths, as tuples of sequence indices"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                l2 = list(left)
                l2[i] -= 1
                for r in rec(l2):
                    yield (i,) + r
    return rec(list(counts))


@contextlib.contextmanager
def logged():
    """the messages that the code under test logs"""
    out = []

    class Keep(logging.Handler):
        def emit(self, record):
            out.append(record.getMessage())

    root, h, level = logging.getLogger(), Keep(), logging.getLogger().level
    before = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    others = list(root.handlers)
    root.handlers = [h]
    root.setLevel(logging.DEBUG)
    try:
        yield out
    finally:
        root.handlers = others
        root.setLevel(level)
        logging.disable(before)


@contextlib.contextmanager
def shown():
    """the figures that the code under test shows"""
    import plotly.graph_objects as go
    out = []
    real = go.Figure.show
    go.Figure.show = lambda self, *a, **k: out.append(self)
    try:
        yield out
    finally:
        go.Figure.show = real


def arr(x):
    """values of a trace as an array of floats, None as missing"""
    return np.array([np.nan if v is None else float(v) for v in np.asarray(x, dtype=object).ravel()])
