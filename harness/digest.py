"""Value identities: integers such that two arrays get the same one iff they agree to 1e-9 (nan = nan)."""
import numpy as np


class Interner:
    def __init__(self, rtol=1e-9):
        self.rtol, self.by = rtol, {}
        self.n = 0

    def __call__(self, key, a):
        a = np.asarray(a)
        if a.dtype.kind in "OUS":
            a = np.array([hash_str(str(x)) for x in a.ravel()]).reshape(a.shape)
        a = a.astype(float)
        b = self.by.setdefault((key, a.shape), [])
        for i, x in b:
            if same(x, a, self.rtol):
                return i
        self.n += 1
        b.append((self.n, a.copy()))
        return self.n


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def same(x, y, rtol):
    if np.array_equal(x, y, equal_nan=True):
        return True
    with np.errstate(all="ignore"):
        fin = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(np.where(fin, 0, x), np.where(fin, 0, y), equal_nan=True):
            return False
        x, y = x[fin], y[fin]
        return bool(np.all(np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + 1e-300))
