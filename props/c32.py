"""C32 displays show the model's own values (spec/Picture*.tla, DisplayTrace.tla)."""
import copy
import math
import random

import numpy as np
import xarray as xr

import vlib
from vlib import call, fx, lg, NNAN
from emcfix import Synth, quiet
import pics
from pics import plt
from emc2.plotting import SubcolumnDisplay
from emc2.statistics_LLNL import statistical_plots

UNIT = {"Ze": (1 / 64., "dBZ"), "Vd": (1 / 128., "m/s"), "beta": (1e-9, "m^-1 sr^-1"), "alpha": (1e-8, "m^-1"), "q": (1e-9, "kg/kg"),
        "od": (1 / 256., "")}
DIMS = [("time", "height"), ("time", "lev"), ("Time", "bottom_top")]


def field_list(rng, both):
    """name -> (kind, class, has subcolumns)"""
    x = rng.choice(["cl", "ci", "pl", "pi"])
    c = rng.choice(["strat", "conv"])
    out = {"sub_col_Ze_%s_%s" % (x, c): ("Ze", x, True), "sub_col_beta_p_tot_%s" % c: ("beta", "tot", True),
           "sub_col_Vd_%s_%s" % (x, c): ("Vd", x, True), "strat_q_subcolumns_%s" % x: ("q", "", True), "q_%s" % x: ("q", "", False),
           "sub_col_alpha_p_%s_strat" % x: ("alpha", x, True)}
    return out


def mean_list(rng):
    x = rng.choice(["cl", "ci", "pl", "pi"])
    return {"sub_col_Ze_tot_strat": ("Ze", "tot", True, True), "sub_col_sigma_d_%s_strat" % x: ("m/s", x, True, False),
            "sub_col_alpha_p_%s_conv" % x: ("m^-1", x, True, True), "strat_n_subcolumns_%s" % x: ("cm-3", "", True, False),
            "N_%s" % x: ("cm-3", "", False, False), "sub_col_OD_%s_conv" % x: ("", x, True, True)}


def fixture(rng, tdim, hdim, T, H, N, lat, lon, date, name):
    """A model with fields of recognisable values; returns it with its description for the specification."""
    with quiet():
        m = Synth(2, 2)
    m.time_dim, m.height_dim, m.model_name = tdim, hdim, name
    m.p_field, m.z_field = "p_3d", "z_3d"
    m.lat_dim, m.lon_dim = ("south_north", "west_east") if tdim == "Time" else ("lat", "lon")
    ds = xr.Dataset()
    mins = sorted(rng.sample(range(0, 3000, 10), T))
    ds[tdim] = (tdim, pics.BASE + np.array(mins) * np.timedelta64(60, "s") if date else np.array(mins, float))
    down = rng.random() < .4
    lev = sorted(rng.sample(range(100, 1000), H), reverse=down)
    ds[hdim] = (hdim, np.array(lev, float), {"units": "hPa"})
    ds["subcolumn"] = ("subcolumn", np.arange(N))
    L, loc, d = 1, [], dict(lat=[], lon=[])
    for n, k, key in ((lat, m.lat_dim, "lat"), (lon, m.lon_dim, "lon")):
        if n:
            c = rng.sample(range(-60, 60), n)
            c = sorted(c, reverse=rng.random() < .3)
            ds[k] = (k, np.array(c, float))
            d[key] = [100 * v for v in c]
            loc.append((k, n))
            L *= n
    shp = [n for _, n in loc]
    names = [k for k, _ in loc]

    def put(nm, arr, sub, attrs):
        """arr: (L, N or 1, T, H)"""
        a = np.moveaxis(arr, 0, -1)                      # N, T, H, L
        a = a.reshape(a.shape[:3] + tuple(shp))
        dims = ["subcolumn", tdim, hdim] + names
        if not sub:
            a, dims = a[0], dims[1:]
        ds[nm] = (dims, a, attrs)

    z = np.array([[[sum(500 for _ in range(h + 1)) + rng.randint(-150, 150) for h in range(H)] for _ in range(T)] for _ in range(L)], float)
    p = np.array([[[1000 - 120 * h + rng.randint(-40, 40) for h in range(H)] for _ in range(T)] for _ in range(L)], float)
    if down:
        z, p = z[:, :, ::-1], p[:, :, ::-1]
    put("z_3d", z[:, None], False, {"units": "m", "long_name": "height"})
    put("p_3d", p[:, None], False, {"units": "hPa"})
    desc = dict(name=name, times=mins, lev=lev, z=z.astype(int).tolist(), p=p.astype(int).tolist(), fields={}, units={}, cls={}, subs={},
                auto={}, **d)
    flds = field_list(rng, lat or lon)
    for nm, (kind, x, sub) in flds.items():
        u, un = UNIT[kind]
        ids = np.array(rng.sample(range(-1500 if kind in ("Ze", "Vd") else 1, 1500), min(1400, L * N * T * H)) * 3)
        a = ids[:L * (N if sub else 1) * T * H].astype(float).reshape(L, N if sub else 1, T, H)
        gap = np.array([rng.random() < .15 for _ in range(a.size)]).reshape(a.shape)
        a[gap] = np.nan
        put(nm, a * u, sub, {"units": un, "long_name": "x"})
        desc["fields"][nm] = np.where(gap, NNAN, np.nan_to_num(a)).astype(int).tolist()
        desc["units"][nm], desc["cls"][nm], desc["subs"][nm], desc["auto"][nm] = un, x, sub, False
    n_cls = rng.choice([1, 3, 7])
    legend = ["class %d" % (q + 1) for q in range(n_cls)]
    sub = rng.random() < .6
    ids = np.array([rng.randint(0, n_cls) for _ in range(L * (N if sub else 1) * T * H)], float).reshape(L, N if sub else 1, T, H)
    zeros = rng.random() < .5
    if zeros:
        ids[ids == 0] = np.nan
    put("my_mask", ids, sub, {"long_name": "classes", "legend": legend})
    desc["fields"]["my_mask"] = np.where(np.isnan(ids), NNAN, np.nan_to_num(ids)).astype(int).tolist()
    desc["units"]["my_mask"], desc["cls"]["my_mask"], desc["subs"]["my_mask"], desc["auto"]["my_mask"] = "", "", sub, False
    desc["legend"], desc["zeros"] = legend, zeros
    means = mean_list(rng)
    for nm, (un, x, sub, auto) in means.items():
        k = np.array([rng.randint(0, 7) for _ in range(L * (N if sub else 1) * T * H)]).reshape(L, N if sub else 1, T, H)
        v = 2. ** k
        if rng.random() < .3:                            # hardly any spread
            k = np.minimum(k, 1) + 3
            v = 2. ** k
        gap = np.array([rng.random() for _ in range(k.size)]).reshape(k.shape)
        if rng.random() < .2:                            # whole level empty
            gap[:, :, :, rng.randrange(H)] = 0
        miss = gap < .2
        if "Ze" not in nm and rng.random() < .4:         # some zeros and negative values
            k[gap > .9] = -1
            k[gap > .96] = -2
            v[k == -1], v[k == -2] = 0., -4.
        v[miss] = np.nan
        if "Ze" in nm:
            v = 10 * np.log10(v)
        v[gap < .05] = rng.choice([np.inf, -np.inf, np.nan])
        put(nm, v, sub, {"units": un or "1", "long_name": "x"})
        desc["fields"][nm] = np.where(miss, NNAN, k).astype(int).tolist()
        desc["units"][nm] = "dBZ" if un == "Ze" else un
        desc["cls"][nm], desc["subs"][nm], desc["auto"][nm] = x, sub, auto
    m.ds = ds
    return m, desc, list(flds), list(means)


class Obs:
    instrument_str = "KAZR"


def observed(rng, T, H, k):
    o = Obs()
    o.instrument_str = rng.choice(["KAZR", "HSRL", "CEIL"])
    mins = sorted(rng.sample(range(0, 3000, 10), T))
    lev = sorted(rng.sample(range(100, 20000, 50), H))
    hn = ["range", "altitude", "height"][k % 3]
    ds = xr.Dataset()
    ds["time"] = ("time", pics.BASE + np.array(mins) * np.timedelta64(60, "s"))
    ds[hn] = (hn, np.array(lev, float), {"units": "m"})
    a = np.array(rng.sample(range(-1500, 1500), T * H), float).reshape(T, H)
    gap = np.array([rng.random() < .15 for _ in range(T * H)]).reshape(T, H)
    a[gap] = np.nan
    d = dict(name=o.instrument_str, times=mins, lev=lev, fields={}, units={}, cls={}, auto={}, subs={})
    ds["mean_velocity"] = (("time", hn), a / 128., {"units": "m/s", "long_name": "v"})
    d["fields"]["mean_velocity"] = np.where(gap, NNAN, np.nan_to_num(a)).astype(int).tolist()
    d["units"]["mean_velocity"] = "m/s"
    b = np.array(rng.sample(range(1, 1500), T * H), float).reshape(T, H)
    b[gap] = np.nan
    ds["beta_a"] = (("time", hn), b * 1e-9, {"units": "m^-1 sr^-1", "long_name": "b"})
    d["fields"]["beta_a"] = np.where(gap, NNAN, np.nan_to_num(b)).astype(int).tolist()
    d["units"]["beta_a"] = "m^-1 sr^-1"
    kk = np.array([rng.randint(0, 7) for _ in range(T * H)]).reshape(T, H)
    v = 2. ** kk
    miss = np.array([rng.random() < .2 for _ in range(T * H)]).reshape(T, H)
    v[miss] = np.nan
    for n, un in (("reflectivity", "counts"), ("width", "m/s"), ("Ze", "dBZ")):
        w, kn = 10 * np.log10(v) if n == "Ze" else v, kk
        if n == "width" and rng.random() < .5:           # some zeros and negative values
            kn = np.where(np.array([rng.random() < .15 for _ in range(T * H)]).reshape(T, H), rng.choice([-1, -2]), kk)
            w = np.where(kn == -1, 0., np.where(kn == -2, -4., v))
        ds[n] = (("time", hn), np.where(miss, rng.choice([np.nan, np.inf, -np.inf]), w), {"units": un, "long_name": "x"})
        d["fields"][n] = np.where(miss, NNAN, kn).astype(int).tolist()
        d["units"][n] = un
    for n in d["fields"]:
        d["cls"][n], d["subs"][n], d["auto"][n] = "", False, n in ("reflectivity", "Ze")
    o.ds = ds
    return o, d


def frozen(models, insts, arrs):
    out = []
    for x in list(models) + list(insts):
        out.append({n: (v.dims, v.values.tobytes(), str(sorted(v.attrs.items()))) for n, v in x.ds.variables.items()})
    return out + [np.asarray(a).tobytes() for a in arrs]


def request(rng, coord):
    """How a location is asked for: (argument, description)"""
    r = rng.random()
    if not coord or r < .2:
        return None, dict(k="none", v=0)
    if r < .6:
        i = rng.randrange(-1, len(coord))
        return (np.int64(i) if rng.random() < .3 else i), dict(k="int", v=i)
    c = rng.choice(coord) / 100.
    v = c + rng.choice([0, .3, -.4])
    return float(v), dict(k="val", v=int(round(v * 100)))


def job(item, rng):
    return session(rng, item)


def session(rng, item):
    kind, _ = item
    tdim, hdim = rng.choice(DIMS)
    T, H, N = rng.choice([1, 2, 3, 4]), rng.choice([2, 3, 5]), rng.choice([1, 2, 3, 4])
    lat, lon = (rng.choice([(2, 3), (3, 1), (0, 2), (2, 0)]) if kind == "region" else (0, 0))
    date = kind == "region" or rng.random() < .75
    models = [fixture(rng, tdim, hdim, rng.choice([T, T + 1]), H, N, lat, lon, date, n)
              for n in rng.sample(["E3SMv1", "ModelE", "WRF", "DHARMA", "my model"], 2)]
    ms, descs = [q[0] for q in models], [q[1] for q in models]
    obs = [observed(rng, rng.choice([1, 3, 5]), rng.choice([2, 4]), rng.randrange(3)) for _ in range(2)]
    insts, idesc = [q[0] for q in obs], [q[1] for q in obs]
    tr = dict(models=descs, inst=idesc, ev=[])
    descr = "display %s %s T,H,N=%s lat,lon=%s dates=%s" % (kind, (tdim, hdim), (T, H, N), (lat, lon), date)
    ev = tr["ev"]
    cur = [0]

    def moved(op, fn, m, la, lo):
        before = frozen(ms, insts, [])
        r, err = call(fn)
        ev.append(dict(op=op, m=m + 1, lat=la, lon=lo, err=err, same=frozen(ms, insts, []) == before))
        cur[0] = m
        return r, err

    n_ax = rng.choice([1, 2])
    (a1, la), (a2, lo) = request(rng, descs[0]["lat"]), request(rng, descs[0]["lon"])
    kw = {}
    if rng.random() < .3:
        kw["ds_name"] = "mine"
    kw["subplot_shape"] = (n_ax,) if rng.random() < .6 else (1, n_ax) if n_ax > 1 else (1,)
    D, err = moved("open", lambda: SubcolumnDisplay(ms[0], a1, a2, figsize=(4, 3), **kw), 0, la, lo)
    if err:
        return descr, tr
    two = len(kw["subplot_shape"]) == 2
    groups = [rng.choice([GROUPS[0], GROUPS[0], GROUPS[1], GROUPS[2]]) for _ in range(n_ax)]
    if not date:
        groups = [[q for q in g if q != "inst"] for g in groups]
    for step in range(rng.choice([3, 5])):
        if rng.random() < .25 and kind != "plain":
            if lat or lon:
                j = rng.randrange(2)
                (a1, la), (a2, lo) = request(rng, descs[j]["lat"]), request(rng, descs[j]["lon"])
                a1, a2 = (0 if a1 is None else a1), (0 if a2 is None else a2)
                la, lo = [dict(k="int", v=0) if q["k"] == "none" else q for q in (la, lo)]
                _, err = moved("latlon", lambda: D._switch_lat_lon(ms[j], a1, a2, rng.random() < .5), j, la, lo)
            else:
                j = rng.randrange(2)
                none = dict(k="none", v=0)
                _, err = moved("model", lambda: D._switch_model(ms[j]), j, none, none)
            if err:
                break
        ai = rng.randrange(n_ax)
        ix = (0, ai) if two else (ai,)
        bar = {}
        e = plot(rng, D, ix, ai, ms[cur[0]], descs[cur[0]], models[cur[0]][2], models[cur[0]][3], insts, idesc, ms, date, kind, groups[ai], bar)
        ev.append(e)
        if e["err"]:
            break
        if rng.random() < .3:
            w = sorted(rng.sample(range(1, 900), 2), reverse=rng.random() < .5)
            nm = rng.choice(["xrng", "yrng"])
            a = D.axes[ix]
            lims = lambda: [(b.get_xlim(), b.get_ylim()) for b in D.axes.flatten() if b is not a]
            rest = lims()
            _, err = call(lambda: (D.set_xrng if nm == "xrng" else D.set_yrng)(ix, tuple(map(float, w))))
            ev.append(dict(op="range", err=err, want=[v * 100 for v in w], only=lims() == rest, yax=nm == "yrng", ax=ai + 1,
                           got=[fx(v, .01) for v in (a.get_xlim() if nm == "xrng" else a.get_ylim())]))
            if err:
                break
        if e["var"] == "my_mask" and e["bar"]:
            ev.append(classes(rng, D, ix, descs[cur[0]], bar))
            if ev[-1]["err"]:
                break
    plt.close("all")
    return descr, tr


def odd_mask(rng, shape):
    other = [n + 1 if i == 0 else n for i, n in enumerate(shape)] if rng.random() < .5 else [n + (i == len(shape) - 1) for i, n in enumerate(shape)]
    return np.ones(other, dtype=rng.choice([bool, int, float]))


def mask_for(rng, shape, v):
    """(argument or None, description) of a mask over v (laid out as the field)"""
    r = rng.random()
    if r < .5:
        return None, []
    if r < .56:                                          # of another shape: such masks are announced as ignored
        return odd_mask(rng, shape), []
    a = np.array([rng.choice([0, 0, 1, 2 if r < .8 else 1]) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if r > .9:
        a = a > 0
    elif r > .8:
        a = a - 1.
    return a, np.asarray(a).astype(int).tolist()


GROUPS = [["curtain", "curtain", "inst", "input", "cf", "sr"], ["single"], ["mean", "mean", "imean"]]


def plot(rng, D, ix, ai, m, d, flds, means, insts, idesc, ms, date, kind, group, keep):
    op = rng.choice(group)
    T, H, N = len(d["times"]), len(d["lev"]), len(m.ds["subcolumn"])
    press = rng.random() < .5
    kw = dict(subplot_index=ix)
    e = dict(op=op, ax=ai + 1, press=press, lab=False, unit="", cls="", mask=[], hatch=False, hatched=[], var="", sub=0, log=False, inst=1,
             bar=False, barlabel=dict(want="", got=""), lim=dict(want=[], got=[]), title=dict(k="none"), err="")
    given = rng.random() < .4
    if given:
        kw["title"] = "a title %d" % rng.randrange(100)
        e["title"] = dict(k="given", want=kw["title"], got="")
    curtain = op not in ("mean", "imean")
    arrs = []
    unit = 1.
    if curtain:
        e["bar"] = rng.random() < .6
        kw["colorbar"] = e["bar"]
        if not given and (op != "single" or date):
            e["title"] = dict(k="default", name="", t=NNAN)
        if e["bar"] and rng.random() < .5:
            kw["cbar_label"] = e["barlabel"]["want"] = "label %d" % rng.randrange(100)
    if op in ("curtain", "single", "input"):
        v = rng.choice(flds + ["my_mask", "my_mask"] if op != "single" else [f for f in flds + ["my_mask"] if d["subs"][f]])
        if op == "input":
            v = rng.choice([f for f in flds if "q_" in f])
        e["var"] = v
        unit = 1. if v == "my_mask" else [u for k, (u, _) in UNIT.items() if (k == "q" and ("q_" in v)) or (k != "q" and "_" + k + "_" in v)][0]
        pos = "q_" in v or "beta" in v or "alpha" in v
        if not press or rng.random() < .6:                   # pressure is the default
            kw["pressure_coords"] = press
        shape = (N, H) if op == "single" else (T, H)
        mk, e["mask"] = mask_for(rng, shape, v)
        if mk is not None:
            kw["Mask_array"] = mk
            arrs.append(mk)
        if rng.random() < .3:
            kw["hatched_mask"] = rng.choice([True, "//"])
            e["hatch"] = True
        if op != "single" and d["subs"][v]:
            e["sub"] = rng.randrange(N)
            kw["column_no"] = e["sub"]
            if e["sub"] == 0 and rng.random() < .5:
                del kw["column_no"]
        if pos and rng.random() < .4:
            kw["log_plot"] = e["log"] = True
    if op == "inst":
        e["inst"] = rng.randrange(2) + 1
        I = idesc[e["inst"] - 1]
        e["var"], unit = rng.choice([("mean_velocity", 1 / 128.), ("beta_a", 1e-9)])
        e["press"] = False
        if e["var"] == "beta_a" and rng.random() < .5:
            kw["log_plot"] = e["log"] = True
        mk, e["mask"] = mask_for(rng, (len(I["times"]), len(I["lev"])), None)
        if mk is not None:
            kw["Mask_array"] = mk
            arrs.append(mk)
        if rng.random() < .3:
            kw["hatched_mask"] = e["hatch"] = True
    if op in ("cf", "sr"):
        nl, C, S = rng.choice([2, 4]), rng.choice([1, 2, 3]), N if op == "sr" else 1
        lev = sorted(rng.sample(range(1, 60), nl))
        e["lev"] = [v * 250 for v in lev]
        a = np.array([rng.choice([0, rng.randint(-3, 500), rng.randint(1, 500), NNAN]) for _ in range(S * T * nl * C)], float).reshape(S, T, nl, C)
        e["arr"] = a.astype(int).tolist()
        a[a == NNAN] = np.nan
        unit = 1 / 512.
        a = a * unit
        e["col"], e["sub"], e["press"] = rng.randrange(C), rng.randrange(S), False
        arr = a[0] if op == "cf" else a
        arrs.append(arr)
    # a logarithmic scale cannot be told from cells without values
    bare = e["log"] and (e["mask"] or any(v == NNAN for v in np.ravel((I if op == "inst" else d)["fields"][e["var"]])))
    if curtain and (bare or rng.random() < .4):
        w = (1e-9, 1e-6) if e["log"] else (-3., 5.)
        kw["vmin"], kw["vmax"] = w
        e["lim"]["want"] = [lg(x) if e["log"] else fx(x, 1e-3) for x in w]
    if op == "mean":
        v = rng.choice(means)
        F = np.array(d["fields"][v])
        e["var"] = v
        if not press or rng.random() < .6:                   # pressure is the default
            kw["pressure_coords"] = press
        r = rng.random()
        ts = m.ds[m.time_dim].values
        sel = list(range(T))
        if r < .4:
            e["win"] = dict(k="all")
        elif r < .7:
            i = rng.randrange(T)
            off = rng.choice([0, 2, -3])
            e["win"] = dict(k="one", t0=d["times"][i] + off)
            t = ts[i] + (np.timedelta64(60 * off, "s") if date else off)
            kw["time"] = rng.choice([t, str(np.datetime_as_string(t, "s"))] if date else [np.float64(t)])
            sel = [i]
        else:
            a, b = sorted(rng.sample(range(-5, 3005, 5), 2))
            if rng.random() < .5:
                a = d["times"][rng.randrange(T)]
                b = max(b, a + 5)
            if rng.random() < .3 and a < d["times"][-1]:
                b = d["times"][-1]
            e["win"] = dict(k="range", t0=a, t1=b)
            sel = [i for i in range(T) if a <= d["times"][i] < b]
            if date:
                w = [pics.BASE + np.timedelta64(60 * q, "s") for q in (a, b)]
                kw["time"] = rng.choice([tuple(w), np.array(w), tuple(str(np.datetime_as_string(q, "s")) for q in w)])
            else:
                kw["time"] = rng.choice([(float(a), float(b)), np.array([a, b], float)])
        if not sel:
            e["win"], sel = dict(k="all"), list(range(T))
            kw.pop("time", None)
        shape = ((N,) if d["subs"][v] else ()) + ((len(sel),) if e["win"]["k"] != "one" else ()) + (H,)
        if rng.random() < .4:
            mk = np.array([rng.choice([0, 0, 0, 1]) for _ in range(int(np.prod(shape)))]).reshape(shape)
            kw["Mask_array"] = mk
            arrs.append(mk)
            e["mask"] = mk.reshape(N if d["subs"][v] else 1, len(sel), H).tolist()
        elif rng.random() < .1:
            kw["Mask_array"] = odd_mask(rng, shape)
            arrs.append(kw["Mask_array"])
    if op == "imean":
        e["inst"] = rng.randrange(2) + 1
        I = idesc[e["inst"] - 1]
        e["var"] = v = rng.choice(["reflectivity", "width", "Ze"])
        e["press"] = kw["pressure_coords"] = False
        e["win"] = dict(k="all")
        nsel = len(I["times"])
        if rng.random() < .5:
            a, b = I["times"][0], I["times"][-1] + rng.choice([0, 5])
            if b > a:
                e["win"] = dict(k="range", t0=a, t1=b)
                kw["time_range"] = np.array([pics.BASE + np.timedelta64(60 * q, "s") for q in (a, b)])
                nsel = sum(a <= t < b for t in I["times"])
        if rng.random() < .4:
            mk = np.array([rng.choice([0, 0, 0, 1]) for _ in range(nsel * len(I["lev"]))]).reshape(nsel, -1)
            kw["Mask_array"] = mk
            arrs.append(mk)
            e["mask"] = [mk.tolist()]
        elif rng.random() < .1:
            kw["Mask_array"] = odd_mask(rng, (nsel, len(I["lev"])))
            arrs.append(kw["Mask_array"])
    if not curtain:
        e["geom"], kw["use_geom_mean"] = rng.choice([("yes", True), ("no", False), ("auto", "auto"), ("no", "other")])
        e["sd"] = rng.random() < .8
        kw["plot_SD"] = e["sd"]
        if "Ze" not in e["var"] and rng.random() < .3:
            e["log"] = kw["log_plot"] = True
        if rng.random() < .3:
            kw["color"] = "tab:red"
        if rng.random() < .3:
            kw["alpha"] = .4
    want = {}
    dated = op == "inst" or (date and op not in ("single", "mean", "imean"))
    for k in ("x_range", "y_range"):
        if rng.random() < .3:
            w = sorted(rng.sample(range(1, 3000), 2))
            want[k] = [v * 100 for v in w]
            kw[k] = (float(w[0]), float(w[1]))
            if k == "x_range" and dated:
                kw[k] = tuple(pics.BASE + np.timedelta64(60 * v, "s") for v in w)
            if rng.random() < .3:
                kw[k] = kw[k][::-1]
    e["xr"], e["yr"] = dict(want=want.get("x_range", []), got=[]), dict(want=want.get("y_range", []), got=[])
    fmt = "%b%d-%H"
    if curtain and op != "single" and rng.random() < .4:
        fmt = kw["x_dateformat"] = rng.choice(["%H:%M", "%d/%m", "%Y-%m-%d", "%j"])
    e["when"] = dict(want="", got="")
    if not curtain and rng.random() < .3:
        kw["Xlabel"] = e["barlabel"]["want"] = "label %d" % rng.randrange(100)
    ax = D.axes[ix]
    rest = [pics.count(a) for a in D.axes.flatten() if a is not ax]
    before = frozen(ms, insts, arrs)
    nb, nm, nc, nl = len(pics.bars(D.fig)), len(pics.meshes(ax)), len(ax.collections), len(ax.lines)
    nh = len(pics.hatches(ax))
    opts = dict(kw)
    if op == "curtain":
        f = lambda: D.plot_subcolumn_timeseries(e["var"], **opts)
    elif op == "input":
        own = rng.random() < .5
        if own:
            f = lambda: D.plot_column_input_q_timeseries(e["var"], **opts)
        else:
            f = lambda: statistical_plots.plot_column_input_q_timeseries(D, e["var"], **opts)
    elif op == "single":
        i = rng.randrange(T)
        off = rng.choice([0, 2, -3])
        ts = m.ds[m.time_dim].values[i]
        t = ts + (np.timedelta64(60 * off, "s") if date else off)
        e["at"] = d["times"][i] + off
        if date and rng.random() < .5:
            t = str(np.datetime_as_string(t, "s"))
        f = lambda: D.plot_single_profile(e["var"], t, **opts)
    elif op == "inst":
        f = lambda: D.plot_instrument_timeseries(insts[e["inst"] - 1], e["var"], **opts)
    elif op == "cf":
        f = lambda: D.plot_regridded_CF_timeseries(arr, np.array(e["lev"]) / 1000., e["col"], **opts)
    elif op == "sr":
        f = lambda: D.plot_regridded_SR_timeseries(arr, np.array(e["lev"]) / 1000., e["col"], e["sub"], **opts)
    elif op == "mean":
        f = lambda: D.plot_subcolumn_mean_profile(e["var"], **opts)
    else:
        f = lambda: D.plot_instrument_mean_profile(insts[e["inst"] - 1], e["var"], **opts)
    r, err = call(f)
    if err:
        e["err"] = err
        return e
    e["same"] = frozen(ms, insts, arrs) == before
    e["only"] = [pics.count(a) for a in D.axes.flatten() if a is not ax] == rest
    e["inv"] = bool(ax.yaxis_inverted())
    for k, l, mp in (("xr", ax.get_xlim(), pics.minutes if dated else (lambda x: np.asarray(x, float))), ("yr", ax.get_ylim(), np.asarray)):
        if e[k]["want"]:
            e[k]["got"] = sorted(fx(v, .01) for v in mp(l))
    got = ax.get_title()
    if e["title"]["k"] == "given":
        e["title"]["got"] = got
    elif e["title"]["k"] == "default":
        nm_, _, tt = got.rpartition(" ")
        e["title"]["name"] = nm_
        try:
            e["title"]["t"] = fx((np.datetime64(tt) - pics.BASE) / np.timedelta64(60, "s"), .01) if "T" in tt else fx(float(tt), .01)
        except ValueError:
            pass
    if curtain and op != "single":
        t0 = (idesc[e["inst"] - 1] if op == "inst" else d)["times"][-1]
        w = pics.BASE + np.timedelta64(60 * t0, "s")
        fm = ax.xaxis.get_major_formatter()
        if dated:
            e["when"] = dict(want=w.astype("datetime64[s]").item().strftime(fmt), got=str(fm(pics.mdates.date2num(w))))
        elif op != "input" or own:
            e["when"]["got"] = "dates" if isinstance(fm, pics.mdates.DateFormatter) else ""
    bars = pics.bars(D.fig)
    e["bars"] = len(bars) - nb
    if curtain:
        e["ret"] = (r[0] is ax and r[1] is not None) if e["bar"] else r is ax
        if e["bar"]:
            keep["bar"] = r[1]
        if e["bar"] and e["bars"] == 1:
            e["barlabel"]["got"] = bars[-1].get_ylabel()
            if op in ("curtain", "single", "inst") and not e["barlabel"]["want"]:
                e["lab"], e["unit"], e["cls"] = True, pics.unit_of(bars[-1].get_ylabel()), pics.class_of(bars[-1].get_ylabel())
        ms_ = pics.meshes(ax)
        if len(ms_) != nm + 1:
            raise vlib.RecordError("no curtain drawn")
        q = ms_[-1]
        e["grid"] = pics.grid(q.get_array().reshape(q._meshHeight, q._meshWidth) if q.get_array().ndim == 1 else q.get_array(), unit)
        xm = (lambda x: x) if op == "single" or (op != "inst" and not date) else pics.minutes
        yu = 1000. if op in ("input", "cf") else 1.
        e["xe"], e["ye"] = pics.edges(q, xm, yu)
        e["lognorm"] = pics.is_log(q.norm)
        if e["lim"]["want"]:
            e["lim"]["got"] = [lg(x) if e["log"] else fx(x, 1e-3) for x in (q.norm.vmin, q.norm.vmax)]
        hs = pics.hatches(ax)[nh:]
        e["hatched"] = [[0 if b else 1 for b in row] for row in np.ma.getmaskarray(np.ma.asarray(hs[-1].get_array()))] if hs else []
        if e["hatch"] and not e["mask"]:
            e["hatched"] = [] if not any(map(any, e["hatched"])) else e["hatched"]
        return e
    e["ret"] = r is ax
    e["barlabel"]["got"] = ax.get_xlabel()
    e["lab"], e["unit"], e["cls"] = not e["barlabel"]["want"], pics.unit_of(ax.get_xlabel()), pics.class_of(ax.get_xlabel())
    if e["unit"] == "1":
        e["unit"] = ""
    e["lognorm"] = ax.get_xscale() == "log"
    ze = "Ze" in e["var"]
    lines = ax.lines[nl:]
    if len(lines) != 1:
        raise vlib.RecordError("%d lines drawn" % len(lines))
    raw = lambda x: 10 ** (x / 10.) if ze else x
    X, Y = np.ma.filled(np.ma.asarray(lines[0].get_xdata(), float), np.nan), np.asarray(lines[0].get_ydata(), float)
    l2 = lambda x: math.log2(x) if x > 0 else float("nan")
    e["line"] = [dict(v=fx(raw(x), 1e-4), l=fx(l2(raw(x)), 1e-4), y=fx(y, .01)) for x, y in zip(X, Y)]
    e["fill"] = []
    shown = [x for x in X if np.isfinite(x)]
    if len(ax.collections) > nc:
        v = np.concatenate([q.vertices for q in ax.collections[-1].get_paths()] or [np.zeros((0, 2))])
        for x, y in zip(X, Y):
            at = v[np.abs(v[:, 1] - y) < 1e-6 * max(1, abs(y)), 0]
            if not len(at) or not np.isfinite(x):
                e["fill"].append(dict(u=NNAN, d=NNAN, ul=NNAN, dl=NNAN, cut=False))
                continue
            lo_, hi_, mid = raw(at.min()), raw(at.max()), raw(x)
            shown += [at.min(), at.max()]
            e["fill"].append(dict(u=fx((hi_ - mid) ** 2, .01), d=fx((mid - lo_) ** 2, .01), ul=fx((l2(hi_) - l2(mid)) ** 2, 1e-4),
                                  dl=fx((l2(mid) - l2(lo_)) ** 2, 1e-4), cut=bool(ze and lo_ < 1e-12)))
    lim = ax.get_xlim()
    if e["lognorm"]:
        shown = [x for x in shown if x > 0]              # the rest cannot be drawn on a logarithmic axis
        e["fits"] = not shown or bool((min(shown) >= min(lim) * .999999 and max(shown) <= max(lim) * 1.000001))
    else:
        e["fits"] = not shown or bool(min(shown) >= lim[0] - 1e-6 and max(shown) <= lim[1] + 1e-6)
    if e["xr"]["want"]:
        e["fits"] = True
    return e


def classes(rng, D, ix, d, plotted):
    """Turn the picture of a classification into one with a legend."""
    e = dict(op="class", err="", zeros=d["zeros"], legend=list(d["legend"]), label=dict(want="", got=""))
    kw = dict(convert_zeros_to_nan=d["zeros"])
    if rng.random() < .5:
        e["legend"] = ["kind %d" % q for q in range(len(d["legend"]))]
        kw["class_legend"] = list(e["legend"])
    else:
        kw["variable"] = "my_mask"
    if rng.random() < .5:
        kw["cbar_label"] = e["label"]["want"] = "a legend"
    cb = plotted["bar"]
    before = frozen([D.model], [], [])
    old = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(cb.mappable.get_array(), float)), -1).tobytes()
    r, err = call(lambda: D.change_plot_to_class_mask(cb, **kw))
    if err:
        e["err"] = err
        return e
    cb.ax.figure.canvas.draw()
    e["same"] = frozen([D.model], [], []) == before and np.ma.filled(np.ma.masked_invalid(np.ma.asarray(cb.mappable.get_array(), float)), -1).tobytes() == old
    e["label"]["got"] = cb.ax.get_ylabel()
    e["ret"] = r is cb
    e["ticks"] = [dict(at=fx(a, .01), label=t.get_text()) for a, t in zip(cb.get_ticks(), cb.ax.get_yticklabels())]
    e["colours"] = ["%.4f %.4f %.4f" % tuple(cb.mappable.to_rgba(float(v))[:3]) for v in range(0, len(e["legend"]) + 1)]
    return e


def run(c):
    rng = random.Random(vlib.SEED)
    inv = ["Shown", "Kept", "Downward"]
    k = dict(Locs={1, 2}, Subs={1, 2}, Times={1, 2}, Levels={1, 2}, MaxSteps=4 if vlib.THOROUGH else 3, Bug='"none"')
    c.model("PictureMC", k, inv, deadlock=False, workers=8)
    for b, w in (("stale", "Shown"), ("mixed", "Shown"), ("transposed", "Shown"), ("alias", "Kept"), ("toggle", "Downward")):
        c.model("PictureMC", dict(k, MaxSteps=3, Bug='"%s"' % b), [w], expect=w, deadlock=False)
    its = [(q, i) for i in range(900 if vlib.THOROUGH else 90) for q in ("plain", "moved", "region")]
    traces = vlib.pmap(job, its)
    good = [(t, e) for _, t in traces for e in t["ev"] if not e["err"]]
    for _, t in traces:
        for e in t["ev"]:
            c.info["op_" + e["op"]] = c.info.get("op_" + e["op"], 0) + 1
    corrupt = []

    def spoil(clause, sel, do, n=3):
        ok = [(t, j) for _, t in traces for j, e in enumerate(t["ev"]) if not e["err"] and sel(e)]
        for t, j in rng.sample(ok, min(n, len(ok))):
            t = copy.deepcopy(t)
            t["ev"] = t["ev"][:j + 1]
            if do(t["ev"][j]) is not False:
                corrupt.append((clause, t))

    def cell(e):
        p = [(y, x) for y in range(len(e["grid"])) for x in range(len(e["grid"][0]))]
        y, x = rng.choice(p)
        e["grid"][y][x] = 5 if e["grid"][y][x] == NNAN else rng.choice([NNAN, e["grid"][y][x] + 1])

    def bump(d, f, by):
        if abs(d[f]) > 1.8e9:
            return False
        d[f] += by

    def at(k, by):
        return lambda e: e[k].__setitem__(1, e[k][1] + by) if e[k] else False

    drawn = ("curtain", "input", "single", "inst", "cf", "sr")
    for o in drawn:
        spoil("cells_show_the_field", lambda e: e["op"] == o, cell)
        spoil("cells_at_their_level", lambda e: e["op"] == o and len(e["ye"]) > 2, at("ye", 400))
        spoil("columns_numbered" if o == "single" else "cells_at_their_time", lambda e: e["op"] == o and len(e["xe"]) > 2, at("xe", 700), 2)
    is_mean = lambda e: e["op"] in ("mean", "imean")
    some = lambda e: is_mean(e) and any(p["v"] < 1.8e9 for p in e["line"])
    pick = lambda e, f: rng.choice([p for p in e["line"] if p["v"] < 1.8e9])

    def worse(e):
        p = pick(e, 0)
        p["v"], p["l"] = p["v"] + 200, p["l"] + 200

    spoil("mean_of_the_values", some, worse, 5)
    spoil("at_their_level", is_mean, lambda e: bump(rng.choice(e["line"]), "y", 50))
    spoil("range_is_one_deviation", lambda e: is_mean(e) and e["sd"] and any(p["u"] < 1.8e9 for p in e["fill"]),
          lambda e: [q.update(u=q["u"] + 900, ul=q["ul"] + 900) for q in e["fill"] if q["u"] < 1.8e9] and None, 5)
    spoil("fits_in_the_plot", is_mean, lambda e: e.update(fits=False))
    spoil("masked_cells_hatched", lambda e: bool(e.get("hatched")), lambda e: e["hatched"][0].__setitem__(0, 1 - e["hatched"][0][0]))
    spoil("dates_as_asked", lambda e: e.get("when", {}).get("want"), lambda e: e["when"].update(got="long ago"))
    spoil("data_left_alone", lambda e: "same" in e, lambda e: e.update(same=False))
    spoil("drawn_where_asked", lambda e: "only" in e, lambda e: e.update(only=False))
    spoil("figure_handles", lambda e: "ret" in e, lambda e: e.update(ret=False))
    spoil("pressure_axis_down", lambda e: e.get("press") is True and (e["op"] != "mean" or not e["yr"]["want"]), lambda e: e.update(inv=False))
    spoil("colour_scale_as_asked", lambda e: "lognorm" in e, lambda e: e.update(lognorm=not e["lognorm"]))
    spoil("colour_scale_as_asked", lambda e: "lim" in e and e["lim"]["want"], lambda e: e["lim"].update(got=[0, 1]))
    spoil("colour_bar_as_asked", lambda e: e["op"] in drawn, lambda e: e.update(bars=1 - e["bars"]))
    spoil("title_as_documented", lambda e: e.get("title", {}).get("k") == "default", lambda e: bump(e["title"], "t", 200))
    spoil("title_as_documented", lambda e: e.get("title", {}).get("k") == "given", lambda e: e["title"].update(got="no title"))
    spoil("labelled_with_quantity", lambda e: e.get("lab"), lambda e: e.update(unit="furlong"))
    spoil("range_as_asked", lambda e: e.get("xr", {}).get("want"), lambda e: e["xr"].update(got=[1, 2]))
    spoil("range_as_asked", lambda e: e["op"] == "range", lambda e: e.update(got=[1, 2]))
    spoil("classes_named", lambda e: e["op"] == "class", lambda e: rng.choice(e["ticks"]).update(label="rain of frogs"))
    spoil("classes_coloured", lambda e: e["op"] == "class" and len(e["legend"]) > 1, lambda e: e["colours"].__setitem__(-1, e["colours"][-2]))
    spoil("call_completes", lambda e: True, lambda e: e.update(err="KeyError"))
    c.validate("DisplayTrace", traces, corrupt, workers=8)
