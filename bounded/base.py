"""Registry of concrete cases; every case is a function (rng, i) -> description."""
import numpy as np

CASES = []


class Failure(Exception):
    """the property is broken on this input"""
    def __init__(self, what, data=None, key=None):
        super().__init__(what)
        self.what, self.data, self.key = what, data, key


class Skip(Exception):
    """the case does not attach to the present source"""


class Pass(Exception):
    pass


def case(n=1, thorough=None, timeout=120):
    def deco(fn):
        CASES.append((fn.__name__, fn, n, thorough if thorough is not None else 5 * n, timeout))
        return fn
    return deco


FLOOR = [1.0]


class relative:
    """inside, errors are measured against the largest expected number, however small"""
    def __init__(self, on=True, floor=1e-300):
        self.on, self.floor = on, floor

    def __enter__(self):
        self.old = FLOOR[0]
        if self.on:
            FLOOR[0] = self.floor

    def __exit__(self, *_):
        FLOOR[0] = self.old


def close(a, b, what, tol=1e-9, scale=None, data=None, key=None):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Failure(f"{what}: shape {a.shape} instead of {b.shape}", data, key)
    if a.size == 0:
        return
    s = scale if scale is not None else max(FLOOR[0], float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0)
    d = np.abs(a - b)
    if not np.all(np.isfinite(a)) or not np.max(d) <= tol * s:
        k = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.ndim else ()
        raise Failure(f"{what}: at {tuple(int(x) for x in k)} got {a[k]!r}, expected {b[k]!r}", data, key)


def need(cond, what, data=None, key=None):
    if not cond:
        raise Failure(what, data, key)
