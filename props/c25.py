"""C25 frequency-by-altitude diagrams (spec/Cfad*.tla)."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np
import xarray as xr

from sim import *
from digest import Interner
import vlib
from vlib import call, fx, fxs, NNAN

import emc2.statistics_LLNL.statistical_aggregation as sa
import emc2.statistics_LLNL.statistical_output as so
from c24 import emcfix_model


def edges(rng):
    n, e, out = rng.choice([1, 2, 3, 5, 8]), rng.randint(-50, 5), []
    step = rng.choice([5, 3, None])
    for _ in range(n + 1):
        out.append(e)
        e += step or rng.randint(1, 9)
    return out


def job(item, rng):
    kind, rep = item
    N, T, C, G = rng.choice([1, 2, 4, 7]), rng.choice([1, 2, 5]), rng.choice([1, 2]), rng.choice([1, 2, 4])
    if rng.random() < .1:
        N, T, C, G = rng.choice([140, 270]), 1, 1, 1
    e = edges(rng)
    pool = e + [e[0] - 1, e[-1] + 1, e[0] - 20, e[-1] + 40] + [x + 1 for x in e]
    # the flags of the regridding are far below any range
    s = np.array([[[[rng.choice(pool) if rng.random() < .85 else None for _ in range(C)] for _ in range(G)]
                   for _ in range(T)] for _ in range(N)], float)
    if rng.random() < .5:
        s[:, rng.randrange(T), rng.randrange(G)] = np.nan
    if rng.random() < .2:
        s[:, :, 0] = rng.choice([np.nan, e[0] - 30, e[-1]])
    col = rng.randrange(C)
    unit = rng.choice([1., .5, .01])
    ea = np.array(e) * unit
    a = np.where(np.isnan(s), np.nan, 0.)
    for x in set(s[~np.isnan(s)]):
        a[s == x] = x * unit
    mid = np.arange(G) * .48 + .24
    flags = rng.random() < .3
    if flags:
        a[np.isnan(a)] = rng.choice([-1e30, -1e20])

    def seq(v):
        return [NNAN if np.isnan(x) else int(x) for x in v]
    d = "%s N=%d T=%d C=%d G=%d edges=%s x%s flags=%s" % (kind, N, T, C, G, e, unit, flags)
    ev, tr = [], {"e": [int(x) for x in e]}
    args = (ea.copy(), mid.copy(), a.copy())
    if kind == "one":
        t = rng.randrange(T)
        x = a[:, t, :, col].copy()
        r, err = call(sa.cal_cfad_radar_40levels, N, args[1], args[0], x)
        for g in range(G):
            ev.append(dict(op="one", err=err, s=[seq(s[:, t, g, col])], f=[] if err else fxs(r[g], 1e-6)))
        ev.append(dict(op="untouched", err="", same=bool(np.array_equal(x, a[:, t, :, col], equal_nan=True))))
        return d, dict(tr, ev=ev)
    fn = sa.get_cfaddBZ if kind == "ze" else sa.get_cfad_SR
    r, err = call(fn, args[0], args[1], T, N, args[2], col)
    for g in range(G):
        ev.append(dict(op="all", err=err, s=[seq(s[:, t, g, col]) for t in range(T)],
                       f=[] if err else fxs(r[g], 1e-6)))
    ev.append(dict(op="untouched", err="", same=all(np.array_equal(p, q, equal_nan=True) for p, q in
                                                    zip(args, (ea, mid, a)))))
    # another order of subcolumns and times
    ps, pt = list(range(N)), list(range(T))
    rng.shuffle(ps)
    rng.shuffle(pt)
    r2, err2 = call(fn, args[0], args[1], T, N, a[ps][:, pt], col)
    for g in range(G):
        ev.append(dict(op="all", err=err2, s=[seq(s[:, t, g, col]) for t in range(T)],
                       f=[] if err2 else fxs(r2[g], 1e-6)))
    if err or err2:
        return d, dict(tr, ev=ev)
    # saving with everything else the model holds
    m = emcfix_model(N, T, 3, C)
    m.ds["Z3"] = (("time", "lev", "ncol"), np.arange(T * 3 * C).reshape(T, 3, C) * 100.)
    m.ds["tau"] = (("time", "lev"), np.random.RandomState(rep).rand(T, 3))
    cf = np.array([[[rng.choice([np.nan, 0, .25, 1]) for _ in range(C)] for _ in range(G)] for _ in range(T)])
    r3 = np.array([[rng.random() for _ in range(4)] for _ in range(G)])
    ids = Interner()

    def rec(ds, names=None):
        return {str(n): [list(ds[n].dims), ids(str(n), np.asarray(ds[n].values).astype(float))]
                for n in (names or ds.variables)}
    want = rec(m.ds)
    want.update({"CFAD_Radar": [["cosp_ht", "cosp_ze"], ids("CFAD_Radar", r)],
                 "CFAD_SR": [["cosp_ht", "cosp_sr"], ids("CFAD_SR", r3)],
                 "cloud_fraction": [["time", "cosp_ht", "ncol"], ids("cloud_fraction", cf)],
                 "cosp_dbz": [["cosp_dbz"], ids("cosp_dbz", ea)]})
    tmp = tempfile.mkdtemp(prefix="c25_")
    try:
        q, err = call(so.save_cfads_to_nc, m, ea, cf, r, r3, tmp + "/", "out.nc")
        got = {}
        if not err and os.path.exists(os.path.join(tmp, "out.nc")):
            with xr.open_dataset(os.path.join(tmp, "out.nc")) as f:
                got = rec(f.load())
        ev.append(dict(op="file", err=err, want=want, got=got))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d, dict(tr, ev=ev)


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 25)
    mc = dict(Undef=99, NS=4 if vlib.THOROUGH else 3, MaxX=3)
    c.model("CfadMC", dict(mc, Bug='"none"'), ["Counted", "Once", "Fraction"], deadlock=False, workers=8)
    for b in ("closed", "open", "undef"):
        c.model("CfadMC", dict(Undef=99, NS=3, MaxX=3, Bug='"%s"' % b), ["Counted"], expect="Counted", deadlock=False)
    its = [(k, i) for i in range(60 if vlib.THOROUGH else 16) for k in ("one", "ze", "sr")]
    traces = vlib.pmap(job, its)
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []
    for op, cond, cl, f in (
            ("one", lambda e: e["f"][0] not in (NNAN,), "share_of_samples_in_bin",
             lambda e: e["f"].__setitem__(0, e["f"][0] + 100000)),
            ("one", lambda e: e["f"][0] == NNAN, "no_sample_undefined", lambda e: e["f"].__setitem__(0, 0)),
            ("all", lambda e: True, "every_sample_in_range_once", lambda e: e["f"].__setitem__(0, e["f"][0] + 30000)),
            ("all", lambda e: True, None, lambda e: e["f"].__setitem__(0, NNAN)),
            ("file", lambda e: True, "everything_saved", lambda e: e["got"].pop("CFAD_SR")),
            ("file", lambda e: True, "saved_as_it_is", lambda e: e["got"].update(cloud_fraction=[["time"], 1]))):
        ok = [(t, e) for t in good for e in t["ev"] if e["op"] == op and cond(e)]
        for _ in range(2):
            t, e = rng.choice(ok)
            e = copy.deepcopy(e)
            f(e)
            corrupt.append((cl, {"e": t["e"], "ev": [e]}))
    c.validate("CfadTrace", traces, corrupt, consts=dict(Undef=NNAN), workers=8)
    c.info["levels"] = sum(len(t["ev"]) for _, t in traces)
