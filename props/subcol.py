"""Drivers shared by C01-C04: run the real subcolumn generator and record its columns as traces."""
import itertools
import random

import numpy as np
import xarray as xr

from emcfix import Synth, CLASSES
from vlib import call

THR = 1e-18


def frac_int(rng, c, N, spread=0.4):
    """A fraction (in 1e-6) that rounds to c of N subcolumns."""
    lo, hi = max(0, (c - spread) / N), min(1, (c + spread) / N)
    return int(round(rng.uniform(lo, hi) * 1e6)) if rng.random() < 0.7 else int(round(c / N * 1e6))


def q_of(rng, on, thr=THR):
    """A mixing ratio above (on) or not above the truncation threshold, including the boundary."""
    return float(rng.choice([thr * 1.01, thr * 5, 1e-6, 2e-4]) if on else rng.choice([0., thr * 0.5, thr]))


def qrel(q, thr):
    r = q / thr * 1000.
    return int(min(10 ** 9, round(r))) if np.isfinite(r) else 10 ** 9


def idx(a):
    return [int(i) + 1 for i in np.where(np.asarray(a).astype(bool))[0]]


def err_trace(kind, err):
    return {"kind": kind, "n": 0, "rad": False, "err": err, "lev": []}


def columns(model, kind, cloud, classes, N, rad, thr, extra=None, sel=None):
    """One trace per column (time) of the recorded allocation."""
    ds = model.ds
    fm = getattr(model, cloud + "_frac_names")
    fr = getattr(model, cloud + "_frac_names_for_rad")
    qn = model.q_names_convective if cloud == "conv" else model.q_names_stratiform
    F = [np.rint(ds[fm[c]].values * 1e6).astype(int) for c in classes]
    G = [np.rint(ds[fr[c]].values * 1e6).astype(int) for c in classes]
    Q = [ds[qn[c]].values for c in classes]
    A = []
    for c in classes:
        v = ds["%s_frac_subcolumns_%s" % (cloud, c)].transpose("subcolumn", "time", "height").values
        if not np.all(np.isin(v, [0, 1])):
            raise AssertionError("non-binary allocation field")
        A.append(v.astype(bool))
    if A[0].shape[0] != N:
        raise AssertionError("wrong number of subcolumns: %d" % A[0].shape[0])
    T, H = F[0].shape
    out = []
    for t in (range(T) if sel is None else sel):
        lev = []
        for j in range(H):
            e = {"f": [int(x[t, j]) for x in F], "g": [int(x[t, j]) for x in G],
                 "q": [qrel(x[t, j], thr) for x in Q], "s": [idx(x[:, t, j]) for x in A]}
            if extra:
                for key, arr in extra.items():
                    e[key] = idx(arr[:, t, j])
            lev.append(e)
        out.append({"kind": kind, "n": N, "rad": bool(rad), "err": "", "lev": lev})
    return out


def setn(model, N):
    model.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")


def put_sub(model, name, arr):
    model.ds[name] = xr.DataArray(arr, dims=("subcolumn", "time", "height"))


def model_from(cells, N, rng, cloud, classes, rad, thr=THR, allclasses=None, **kw):
    """cells: list (columns) of lists (levels) of tuples (count per class). The fraction field not used by the
    chosen logic, and the mixing ratios micro logic has to ignore, are drawn at random."""
    T, H = len(cells), len(cells[0])
    allc = allclasses or CLASSES
    f = {c: np.zeros((T, H)) for c in allc}
    g = {c: np.zeros((T, H)) for c in allc}
    q = {c: np.zeros((T, H)) for c in allc}
    for t, col in enumerate(cells):
        for j, cs in enumerate(col):
            for c, k in zip(classes, cs):
                used, other = (g, f) if rad else (f, g)
                on = True
                if rad and k == 0 and rng.random() < 0.4:   # cloud fraction present but no condensate
                    k, on = rng.randint(0, N), False
                used[c][t, j] = frac_int(rng, k, N) / 1e6
                other[c][t, j] = frac_int(rng, rng.randint(0, N), N) / 1e6
                q[c][t, j] = q_of(rng, on if rad else rng.random() < 0.6, thr)
    return Synth(T, H, frac={cloud: f}, frac_rad={cloud: g}, q={cloud: q}, classes=allc, **kw)


def random_cells(rng, T, H, N, k):
    """Mix of independent, persistent and extreme cells."""
    out = []
    for _ in range(T):
        mode = rng.random()
        col, prev = [], None
        for j in range(H):
            if mode < 0.35:
                cs = tuple(rng.randint(0, N) for _ in range(k))
            elif mode < 0.6:
                cs = tuple(rng.choice([0, 0, N, rng.randint(0, N)]) for _ in range(k))
            elif mode < 0.8 and prev is not None:
                cs = tuple(min(N, max(0, p + rng.choice([-1, 0, 0, 1]))) for p in prev)
            else:
                a = rng.randint(0, N)
                cs = tuple(rng.choice([a, a, 0]) for _ in range(k))
            prev = cs
            col.append(cs)
        out.append(col)
    return out


def flip(trace, rng, lev, cls, mode="toggle"):
    """A damaged copy of a trace: one subcolumn of one level toggled."""
    import copy
    t = copy.deepcopy(trace)
    s = t["lev"][lev]["s"][cls]
    x = rng.randint(1, t["n"])
    if x in s:
        s.remove(x)
    else:
        s.append(x)
    return t
