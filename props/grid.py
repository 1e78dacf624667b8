"""Recording datasets for spec/GridTrace.tla."""
import datetime

from sim import *
from emcfix import Model, quiet
import emc2.core.model as em


class Ids:
    """Numbers for values that are not whole: equal iff they agree to 1e-9, per field."""

    def __init__(self):
        self.tab = {}

    def __call__(self, key, a):
        t = self.tab.setdefault(key, [])
        out = []
        for x in np.ravel(a).astype(float):
            for i, y in enumerate(t):
                if x == y or (x != x and y != y) or (np.isfinite(x) and abs(x - y) <= 1e-9 * max(abs(x), abs(y))):
                    break
            else:
                t.append(x)
                i = len(t) - 1
            out.append(i)
        return out


def ints(a):
    a = np.ravel(a)
    if a.dtype.kind == "M":
        return [int(x) for x in (a - np.datetime64("2020-01-01")) / np.timedelta64(60, "s")]
    return [int(round(float(x))) if np.isfinite(x) else NNAN for x in a.astype(float)]


def snap(m, ids=None, only=None):
    ds = m.ds
    f, c = {}, {}
    for n in ds.variables:
        n = str(n)
        if n in ds.coords:
            if ds[n].dtype.kind != "O":
                c[n] = {"dims": list(ds[n].dims), "v": ints(ds[n].values)}
        elif only is None or n in only:
            v = ds[n].values
            f[n] = {"dims": list(ds[n].dims), "v": ids(n, v) if ids is not None else ints(v),
                    "u": str(sorted(ds[n].attrs.items()))}
    for d in ds.sizes:
        c.setdefault(str(d), {"dims": [d], "v": list(range(ds.sizes[d]))})
    return {"size": {str(d): int(s) for d, s in ds.sizes.items()}, "f": f, "c": c, "tdim": m.time_dim,
            "st": m.stacked_time_dim or ""}


PAR = dict(g=[], col="", base=[], first=True, squeeze=False, tc="", lo=0, hi=0, of=0, c0={})


def event(op, m, err="", ids=None, **par):
    p = dict(PAR)
    p.update(par)
    if err:
        return dict(op=op, err=err.split(":")[0], par=p, size={}, f={}, c={}, tdim="", st="")
    return dict(snap(m, ids), op=op, err="", par=p)
