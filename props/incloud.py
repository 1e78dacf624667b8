"""Drivers for C04/C05: run set_q_n and record what every subcolumn of every cell received."""
import numpy as np

from emcfix import Synth, CLASSES
from emc2.simulator import subcolumn as sc
from subcol import setn, put_sub
from vlib import lg, lgs, call

EXTRA = CLASSES + ["sn"]


def etrace(kind, err):
    return {"kind": kind, "rad": False, "err": err, "cell": []}


def rand_model(rng, N, T, H, classes, thr, full=False, relvar=None, **kw):
    """Random fractions (micro and rad differ), mixing ratios around the threshold and far above, numbers."""
    def fr():
        r = rng.random()
        return 0. if r < 0.15 else 1. if r < 0.25 else rng.uniform(0.003, 1)

    def qq():
        r = rng.random()
        return (0. if r < 0.1 else thr * 0.5 if r < 0.15 else thr if r < 0.2 else thr * 1.001 if r < 0.3
                else 10 ** rng.uniform(-16, -2.5) if r < 0.5 else 10 ** rng.uniform(-7, -3))
    mk = lambda f: np.array([[f() for _ in range(H)] for _ in range(T)])
    frac = {cl: {x: mk(fr) for x in classes} for cl in ("strat", "conv")}
    frad = {cl: {x: mk(fr) for x in classes} for cl in ("strat", "conv")}
    if full:
        for d in (frac, frad):
            for cl in d:
                for x in d[cl]:
                    d[cl][x] = np.maximum(d[cl][x], 0.01)
    q = {cl: {x: mk(qq) for x in classes} for cl in ("strat", "conv")}
    Nn = {x: mk(lambda: 0. if rng.random() < 0.1 else 10 ** rng.uniform(-4, 3)) for x in classes}
    m = Synth(T, H, frac=frac, frac_rad=frad, q=q, N=Nn, classes=classes, relvar=relvar, **kw)
    setn(m, N)
    return m


def used_frac(m, cloud, cls, rad, thr):
    names = (m.strat_frac_names_for_rad if rad else m.strat_frac_names) if cloud == "strat" else \
        (m.conv_frac_names_for_rad if rad else m.conv_frac_names)
    f = m.ds[names[cls]].values
    qn = (m.q_names_stratiform if cloud == "strat" else m.q_names_convective)[cls]
    return np.where(m.ds[qn].values > thr, f, 0) if rad else f


def arbitrary_sub(m, cloud, cls, N, rad, thr, rng):
    """Any allocation at all, as long as a cell without the class has none."""
    f = used_frac(m, cloud, cls, rad, thr)
    T, H = f.shape
    a = np.zeros((N, T, H), bool)
    for t in range(T):
        for j in range(H):
            if f[t, j] > 0:
                w = rng.random()
                for i in range(N):
                    a[i, t, j] = rng.random() < (0. if w < 0.1 else 1. if w < 0.2 else 0.5)
    put_sub(m, "%s_frac_subcolumns_%s" % (cloud, cls), a)


def record(m, cloud, cls, N, rad, thr):
    """Uniform-distribution traces: one for q, for stratiform one for N."""
    fm = m.ds[getattr(m, cloud + "_frac_names")[cls]].values
    fr = m.ds[getattr(m, cloud + "_frac_names_for_rad")[cls]].values
    qn = (m.q_names_stratiform if cloud == "strat" else m.q_names_convective)[cls]
    q = m.ds[qn].values
    order = ("subcolumn", "time", "height")
    A = m.ds["%s_frac_subcolumns_%s" % (cloud, cls)].transpose(*order).values.astype(bool)
    V = m.ds["%s_q_subcolumns_%s" % (cloud, cls)].transpose(*order).values
    out = []
    sets = [("single" if N == 1 else "uniform", q, V)]
    if cloud == "strat":
        sets.append(("single_n" if N == 1 else "number", m.ds[m.N_field[cls]].values,
                     m.ds["strat_n_subcolumns_%s" % cls].transpose(*order).values))
    T, H = q.shape
    for kind, g, v in sets:
        if v.shape != (N, T, H):
            raise AssertionError("wrong shape %s" % (v.shape,))
        cells = [{"q": lg(g[t, j]), "fm": lg(fm[t, j]), "fr": lg(fr[t, j]), "over": bool(q[t, j] > thr),
                  "s": [int(i) + 1 for i in np.where(A[:, t, j])[0]], "v": lgs(v[:, t, j])}
                 for t in range(T) for j in range(H)]
        out.append({"kind": kind, "rad": bool(rad), "err": "", "cell": cells})
    return out


def record_variable(m, N, rad, thr, narrow=None):
    """Traces of liquid distributed with sub-grid variability (stratiform cl, microphysics logic)."""
    cls = "cl"
    f = used_frac(m, "strat", cls, False, thr)
    q = m.ds[m.q_names_stratiform[cls]].values
    order = ("subcolumn", "time", "height")
    A = m.ds["strat_frac_subcolumns_cl"].transpose(*order).values.astype(bool)
    V = m.ds["strat_q_subcolumns_cl"].transpose(*order).values
    T, H = q.shape
    cells, wide, varied = [], 0, 0
    for t in range(T):
        for j in range(H):
            mean = q[t, j] / f[t, j] if f[t, j] > 0 and q[t, j] > thr else 0.
            n = int(A[:, t, j].sum())
            v = V[:, t, j]
            fin = bool(np.all(np.isfinite(v)))
            unit = max(mean * max(n, 1), 1e-300) / 1e6      # the total maps to 1e6
            if fin and np.abs(v).max() / unit > 1e9:
                fin = False
            nar = bool(narrow is not None and narrow[t, j])
            cells.append({"m": int(round(mean / unit)), "narrow": nar and n > 0, "fin": fin,
                          "s": [int(i) + 1 for i in np.where(A[:, t, j])[0]],
                          "v": [int(round(x / unit)) if fin else 0 for x in v]})
            if n >= 4 and mean > 0 and narrow is not None and not nar:
                wide += 1
                varied += int(fin and np.ptp(v[A[:, t, j]]) > 0.02 * mean)
    out = [{"kind": "variable", "rad": False, "err": "", "cell": cells}]
    if wide >= 12:
        out.append({"kind": "spread", "rad": False, "err": "", "cell": [{"wide": wide, "varied": varied,
                                                                       "fm": 0, "fr": 0, "over": True}]})
    return out
