"""C33 figures and files of the statistics (spec/FigureMC.tla, FigureTrace.tla)."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np
import xarray as xr

import vlib
from vlib import call, fx, lg, NNAN
from emcfix import Synth, quiet
import pics
from pics import plt
from emc2.statistics_LLNL import statistical_plots as SP, statistical_output as SO

CL = ["cl", "ci", "pl", "pi"]
UNIT = {"sub_col_Ze_att_tot": 1 / 64., "sub_col_Ze_tot": 1 / 64., "sub_col_beta_att_tot": 1e-9, "sub_col_beta_p_tot": 1e-9}
QU = 1e-9


def scene(rng):
    T, H, N, C = rng.choice([1, 1, 2, 3, 4]), rng.choice([2, 3, 5]), rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
    with quiet():
        m = Synth(2, 2)
    m.time_dim = rng.choice(["time", "time", "Time"])
    m.height_dim, m.z_field, m.p_field = "lev", "height_full", "p"
    m.model_name = "a model"
    tn = m.time_dim
    mins = sorted(rng.sample(range(0, 3000, 12), T))
    ds = xr.Dataset()
    ds[tn] = (tn, pics.BASE + np.array(mins) * np.timedelta64(60, "s"))
    ds["lev"] = ("lev", np.arange(H) * 1.)
    ds["subcolumn"] = ("subcolumn", np.arange(N))
    z = np.array([[[600 * (h + 1) + rng.randint(-250, 250) for h in range(H)] for _ in range(T)] for _ in range(C)])
    if rng.random() < .5:
        z = z[:, :, ::-1]
    ds[m.z_field] = ((tn, "lev", "ncol"), np.moveaxis(z, 0, -1).astype(float), {"units": "m"})
    tr = dict(times=mins, ns=N, z=z.tolist(), fields={}, ev=[])

    def put(name, unit, lo, blank, zero, low):
        ids = np.array([rng.randint(lo, 1500) for _ in range(C * N * T * H)])
        gap = np.array([rng.random() for _ in ids])
        ids[gap > 1 - zero] = 0
        a = ids * unit
        a[gap < blank] = np.nan if rng.random() < .6 or not low else low
        ids = np.where(gap < blank, NNAN, ids).reshape(C, N, T, H)
        tr["fields"][name] = ids.tolist()
        return np.moveaxis(a.reshape(C, N, T, H), 0, -1)

    for n, u in UNIT.items():
        ze = "Ze" in n
        ds[n] = (("subcolumn", tn, "lev", "ncol"), put(n, u, -1500 if ze else 1, .2, 0, -1e30 if ze else -1e50))
    for x in CL:
        ds["strat_q_subcolumns_" + x] = (("subcolumn", tn, "lev", "ncol"), put("strat_q_subcolumns_" + x, QU, -300 if rng.random() < .3 else 1, .1, .3, 0))
    atb = put("atb", 1e-9, 1, .1, 0, 0)
    mol = put("mol", 1e-9, 1, .05, 0, 0)
    m.ds = ds
    return m, tr, (T, H, N, C), atb, mol


def frozen(m, arrs):
    return {n: (v.dims, v.values.tobytes(), str(sorted(v.attrs.items()))) for n, v in m.ds.variables.items()}, [np.asarray(a).tobytes() for a in arrs]


def corners(q):
    return np.asarray(q.get_coordinates(), float)


def panels(fig):
    return [a for a in fig.axes if pics.meshes(a) and a not in pics.bars(fig)]


def shown(q):
    a = q.get_array()
    return a.reshape(q._meshHeight, q._meshWidth) if a.ndim == 1 else a


def job(item, rng):
    m, tr, (T, H, N, C), atb, mol = scene(rng)
    scratch = tempfile.mkdtemp(prefix="c33_")
    written = []
    orig = plt.Figure.savefig
    plt.Figure.savefig = lambda self, f, *a, **k: written.append(str(f))   # figures of 400 dpi take long to write
    try:
        for _ in range(4):
            op = rng.choice(["radarlidar", "nonatt", "sr", "q", "qcp", "cfad_ze", "cfad_sr", "file"])
            ev = file(rng, m, tr, T, C, scratch) if op == "file" else figure(rng, op, m, T, H, N, C, atb, mol, scratch, written)
            tr["ev"].append(ev)
            plt.close("all")
            if ev["err"]:
                break
    finally:
        plt.Figure.savefig = orig
        shutil.rmtree(scratch)
    return "figures T,H,N,C=%s %s" % ((T, H, N, C), [e["op"] + e.get("fn", "") for e in tr["ev"]]), tr


def figure(rng, op, m, T, H, N, C, atb, mol, scratch, written):
    col = rng.randrange(C)
    flag = rng.choice([0, 0, None, "save", 1])
    name = "n%d" % rng.randrange(99)
    kw, lims = {}, {}
    if rng.random() < .3:
        kw["cmap"] = rng.choice(["viridis", "jet"])
    if rng.random() < .2:
        kw["alpha"] = .5
    e = dict(op="cfad" if "cfad" in op else "columns", fn=op, col=col, err="", wsaved=[], saved=[])
    stem, wp = {}, []
    fx6 = lambda v: NNAN if v is None else fx(v, 1e-4)
    lgl = lambda v: NNAN if v is None else lg(v)
    arrs = [atb, mol]
    if op in ("radarlidar", "nonatt"):
        stem = "radar_lidar_%satt_allsubcols_" % ("non" if op == "nonatt" else "")
        zlim, blim = (-50, 10), (1e-8, 1e-1)
        if rng.random() < .4:
            zlim = (rng.randint(-60, -30), rng.randint(0, 30))
            if rng.random() < .5:
                kw["vmin"], kw["vmax"] = zlim
            else:
                kw["vmin_radar"], kw["vmax_radar"] = zlim
        if rng.random() < .4:
            blim = (1e-9, 1e-3)
            kw["vmin_lidar"], kw["vmax_lidar"] = blim
        names = ("sub_col_Ze_att_tot", "sub_col_beta_att_tot") if op == "radarlidar" else ("sub_col_Ze_tot", "sub_col_beta_p_tot")
        wp = [dict(of=[names[0]], how="as is", mult=1, unit=1 / 64., wlog=False, want=[fx6(v) for v in zlim]),
              dict(of=[names[1]], how="as is", mult=1, unit=1e-9, wlog=True, want=[lgl(v) for v in blim])]
        fn = SP.plot_every_subcolumn_timeseries_radarlidarsignal if op == "radarlidar" else SP.plot_every_subcolumn_timeseries_nonatt_radarlidarsignal
        f = lambda: fn(m, col, flag, scratch, name, **kw)
    elif op == "sr":
        stem = "radar_lidar_SR_allsubcols_"
        w = (0, None)
        if rng.random() < .5:
            w = (rng.choice([0, 1]), rng.choice([10, 80]))
            kw["vmin"], kw["vmax"] = w
        wp = [dict(of=["atb", "mol"], how="ratio", mult=1, unit=1 / 4096., wlog=False, want=[fx6(v) for v in w])]
        f = lambda: SP.plot_every_subcolumn_timeseries_SR(m, atb, mol, col, flag, scratch, name, **kw)
    elif op in ("q", "qcp"):
        stem = "q_allsubcols_" if op == "q" else "q_cloud_precipitation_allsubcols_"
        w = (0, .1)
        if rng.random() < .5:
            w = (rng.choice([0, 1e-3]), rng.choice([.01, 1]))
            kw["vmin"], kw["vmax"] = w
        s = "strat_q_subcolumns_"
        of = [[s + x] for x in CL] if op == "q" else [[s + "cl", s + "ci"], [s + "pl", s + "pi"]]
        wp = [dict(of=o, how="positive" if op == "q" else "sum", mult=1000, unit=QU, wlog=False, want=[fx6(v) for v in w]) for o in of]
        fn = SP.plot_every_subcolumn_timeseries_mixingratio if op == "q" else SP.plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation
        f = lambda: fn(m, col, flag, scratch, name, **kw)
    else:
        n, b = rng.choice([1, 2, 5, 40]), rng.choice([2, 6])
        lev = np.array(sorted(rng.sample(range(2, 300), n)))
        if rng.random() < .3:
            lev = np.arange(n) * 10 + 5
        e["lev"] = [int(v) * 5000 for v in lev]                  # 1/100 m
        ids = np.array([rng.choice([0, rng.randint(0, 1000), NNAN]) for _ in range(n * b)]).reshape(n, b)
        e["arr"] = ids.tolist()
        a = np.where(ids == NNAN, np.nan, ids / 1024.)
        w = (0, .2)
        if rng.random() < .5:
            w = (0, rng.choice([.5, 1]))
            kw["vmin"], kw["vmax"] = w
        wp = [dict(of=[], how="", mult=1, unit=1 / 1024., wlog=False, want=[fx6(v) for v in w])]
        if op == "cfad_ze":
            stem = "CFAD_Radar_"
            bins = np.array(sorted(rng.sample(range(-50, 10), b + 1)), float)
            e["bins"] = [fx(v, .01) for v in bins]
            fn = SP.plot_radar_CFAD
        else:
            stem = "CFAD_SR_"
            bins = np.array(sorted(rng.sample(range(0, 90), b + 1)), float)
            e["bins"] = [fx(v, .01) for v in range(b + 1)]       # evenly spaced, labelled with the bins
            fn = SP.plot_lidar_SR_CFAD
        arrs += [a, bins, lev]
        f = lambda: fn(bins, lev / 20., a, flag, scratch, name, **kw)
    del written[:]
    e["wsaved"] = ["%s/%s%s.png" % (scratch, stem, name)] if flag in ("save", 1) else []
    before, figs = frozen(m, arrs), set(plt.get_fignums())
    r, err = call(f)
    if err:
        e["err"] = err
        return e
    e["same"] = frozen(m, arrs) == before
    e["saved"] = list(written)
    new = [k for k in plt.get_fignums() if k not in figs]
    if len(new) != 1:
        raise vlib.RecordError("%d figures drawn" % len(new))
    fig = plt.figure(new[0])
    ax = panels(fig)
    e["npanels"], e["panels"] = len(wp), []
    for a, w in zip(ax, wp):
        q = pics.meshes(a)[-1]
        c = corners(q)
        got = [q.norm.vmin, q.norm.vmax]
        p = dict(of=w["of"], how=w["how"], mult=w["mult"], wlog=w["wlog"], log=pics.is_log(q.norm), grid=pics.grid(shown(q), w["unit"]),
                 lim=dict(want=w["want"], got=[(lg if w["wlog"] else fx6)(v) for v in got]))
        if e["op"] == "columns":
            if not np.allclose(c[:, :, 0], c[:1, :, 0], rtol=1e-12):
                raise vlib.RecordError("columns are not upright")
            p["xe"] = [fx(v, .01) for v in pics.minutes(c[0, :, 0])]
            p["ye"] = [[fx(v * 4000., 1.) for v in row] for row in c[:, :, 1]]
        else:
            p["xe"], p["ye"] = [fx(v, .01) for v in c[0, :, 0]], [fx(v * 1000., .01) for v in c[:, 0, 1]]
        e["panels"].append(p)
    return e


def file(rng, m, tr, T, C, scratch):
    n, bz, bs = rng.choice([2, 3, 5]), rng.choice([2, 4]), rng.choice([1, 3])
    val = lambda *s: np.array([rng.choice([0., rng.randint(0, 1000) / 1024., np.nan]) for _ in range(int(np.prod(s)))]).reshape(s)
    ints = lambda a: [fx(v, 1 / 1024.) if np.isfinite(v) else NNAN for v in np.ravel(a)] + list(np.shape(a))
    bins = np.array(sorted(rng.sample(range(-50, 10), bz)), float)
    cf, z, s = val(T, n, C), val(n, bz), val(n, bs)
    fn = "out%d.nc" % rng.randrange(3)
    e = dict(op="file", err="")
    before = frozen(m, [cf, z, s, bins])
    own = m.ds.copy(deep=True)
    if m.time_dim != "time":
        pass                                                     # the fraction comes with a time dimension of its own
    r, err = call(SO.save_cfads_to_nc, m, bins, cf, z, s, scratch + "/", fn)
    if err:
        e["err"] = err
        return e
    e["same"] = frozen(m, [cf, z, s, bins]) == before
    with xr.open_dataset(os.path.join(scratch, fn)) as d:
        e["own"] = all(k in d and d[k].dims == v.dims and bool(np.array_equal(d[k].values, v.values) or np.allclose(
            d[k].values.astype(float), v.values.astype(float), rtol=1e-12, equal_nan=True)) for k, v in own.variables.items())
        g = lambda k, *dims: ints(d[k].transpose(*dims).values) if k in d and set(d[k].dims) == set(dims) else []
        e["cfad"] = dict(want=ints(z), got=g("CFAD_Radar", "cosp_ht", "cosp_ze"))
        e["sr"] = dict(want=ints(s), got=g("CFAD_SR", "cosp_ht", "cosp_sr"))
        e["cf"] = dict(want=ints(cf), got=g("cloud_fraction", "time", "cosp_ht", "ncol"))
        e["bins"] = dict(want=ints(bins), got=g("cosp_dbz", "cosp_dbz"))
    return e


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 33)
    inv = ["Shown", "AtHeight", "Kept"]
    for nt, ns, nh, nc in [(1, 1, 2, 2), (1, 3, 2, 2), (3, 1, 2, 2), (2, 3, 3, 2)] + ([(4, 4, 3, 3)] if vlib.THOROUGH else []):
        c.model("FigureMC", dict(NT=nt, NS=ns, NH=nh, NC=nc, Bug='"none"'), inv, deadlock=False)
    for b, w in (("tiled", "Shown"), ("shifted", "AtHeight"), ("first", "Shown"), ("view", "Kept")):
        c.model("FigureMC", dict(NT=2, NS=3, NH=2, NC=2, Bug='"%s"' % b), [w], expect=w, deadlock=False)
    traces = vlib.pmap(job, list(range(1200 if vlib.THOROUGH else 160)))
    for _, t in traces:
        for e in t["ev"]:
            k = "op_" + e.get("fn", e["op"])
            c.info[k] = c.info.get(k, 0) + 1
    corrupt = []

    def spoil(clause, sel, do, n=3):
        ok = [(t, j) for _, t in traces for j, e in enumerate(t["ev"]) if not e["err"] and sel(e)]
        for t, j in rng.sample(ok, min(n, len(ok))):
            t = copy.deepcopy(t)
            t["ev"] = [t["ev"][j]]
            do(t["ev"][0])
            corrupt.append((clause, t))

    def cell(e):
        g = rng.choice(e["panels"])["grid"]
        row = rng.choice(g)
        x = rng.randrange(len(row))
        row[x] = 5 if row[x] == NNAN else NNAN

    for op in ("radarlidar", "nonatt", "sr", "q", "qcp", "cfad_ze", "cfad_sr"):
        mine = lambda e: e.get("fn") == op
        spoil("cells_show_the_field", mine, cell)
        spoil("saved_as_asked", mine, lambda e: e.update(saved=e["saved"][:-1] if e["saved"] else ["x"]), 1)
        spoil("colour_scale_as_asked", mine, lambda e: e["panels"][-1]["lim"]["got"].__setitem__(0, 77), 1)
        spoil("panels", mine, lambda e: e["panels"].pop(), 1)
        spoil("data_left_alone", mine, lambda e: e.update(same=False), 1)
    cols = lambda e: e["op"] == "columns" and len(e["panels"][0]["xe"]) > 2
    spoil("cells_at_their_time", cols, lambda e: e["panels"][0]["xe"].__setitem__(1, e["panels"][0]["xe"][1] + 9))
    spoil("cells_at_their_level", cols, lambda e: e["panels"][-1]["ye"][1].__setitem__(1, e["panels"][-1]["ye"][1][1] + 3))
    spoil("cells_at_their_bin", lambda e: e["op"] == "cfad", lambda e: e["panels"][0]["xe"].__setitem__(1, 1))
    spoil("cells_at_their_level", lambda e: e["op"] == "cfad" and len(e["lev"]) > 1, lambda e: e["panels"][0]["ye"].__setitem__(1, e["panels"][0]["ye"][1] + 900))
    for f, cl in (("cfad", "saved_cfad"), ("sr", "saved_cfad"), ("bins", "saved_bins"), ("cf", "saved_fraction")):
        spoil(cl, lambda e: e["op"] == "file", lambda e: e[f]["got"].__setitem__(0, 7))
    spoil("saved_fields", lambda e: e["op"] == "file", lambda e: e.update(own=False))
    spoil("call_completes", lambda e: True, lambda e: e.update(err="KeyError"))
    c.validate("FigureTrace", traces, corrupt, workers=8)
