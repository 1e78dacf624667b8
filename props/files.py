"""Synthetic model output files of every supported model, and what was put into them."""
import os
import sys
import types

# wrf-python is an optional library: a stand-in hands out the diagnosed variables, which the files then simply contain
if "wrf" not in sys.modules:
    _w = types.ModuleType("wrf")

    def _getvar(nc, name, units=None, timeidx=None, squeeze=True, **kw):
        import xarray as xr
        v = {"z": "GEOZ", "tk": "TK", "wa": "WA"}[name]
        a = xr.DataArray(nc.variables[v][:].filled(), dims=("Time", "bottom_top", "south_north", "west_east"), name=name,
                         attrs={"units": units or ""})
        if "XTIME" in nc.variables:
            t = np.datetime64("2020-01-01") + np.array(nc.variables["XTIME"][:]).astype(int) * np.timedelta64(60, "s")
            a = a.assign_coords(Time=("Time", t), XTIME=("Time", nc.variables["XTIME"][:].astype(float)))
        return a
    _w.getvar, _w.ALL_TIMES, _w.tk = _getvar, None, None
    sys.modules["wrf"] = _w

import numpy as np
import xarray as xr

BASE = np.datetime64("2020-01-01")
CL4 = ("cl", "ci", "pl", "pi")


def mins(t):
    return int(round((np.datetime64(t, "s") - np.datetime64(BASE, "s")) / np.timedelta64(60, "s")))


class File:
    """vals: name -> array over (time, level, column) of what the file holds for every cell."""

    def __init__(self, fam, lay, T, H, C):
        self.fam, self.lay, self.T, self.H, self.C = fam, lay, T, H, C
        self.vals, self.times, self.lat, self.lon = {}, [0] * T, [0] * C, [0] * C


def spread(a, T, H, C):
    return np.broadcast_to(a, (T, H, C))


def write(path, f, dims, shape_of, scalars, cell_vars, flat_vars, single):
    """dims: tuple of names for cell fields; shape_of: function array(T,H,C) -> array in that layout."""
    ds = {}
    for n, (v, at) in cell_vars.items():
        w = shape_of(v)
        ds[n] = (dims, w.astype("f4") if n in single else w, at)
        f.vals[n] = v.astype("f4").astype(float) if n in single else v
    for n, (d, v, at) in flat_vars.items():
        ds[n] = (d, v, at)
    for n, v in scalars.items():
        ds[n] = ((), v)
    return ds


def pick(rng, lo, hi, zero, shape):
    n = int(np.prod(shape))
    return np.array([0. if rng.random() < zero else 10 ** rng.uniform(lo, hi) for _ in range(n)]).reshape(shape)


def cells(rng, T, H, C):
    """Unique temperatures, by which every cell is recognised again."""
    ids = rng.sample(range(1, 1600), T * H * C)
    return (200. + np.array(ids) / 16.).reshape(T, H, C)


def times(rng, T, order=True):
    t = rng.sample(range(0, 3000, 10), T)
    return sorted(t) if order else t


def e3sm(rng, path, fam, lay, rain, one_ice, scheme):
    """fam E3SMv1 / E3SMv3 / CESM2. lay: column, single, region, ncol, subdomains, appended."""
    T, H = rng.choice([1, 2, 3]), rng.choice([2, 3, 5])
    nlat = nlon = 1
    if lay in ("region", "appended"):
        nlat, nlon = rng.choice([(2, 3), (3, 1), (1, 2), (2, 2)])
    C = nlat * nlon
    subs = []
    if lay == "subdomains":
        subs = [(s, rng.choice([1, 2, 3])) for s in
                rng.sample(["_60e_to_61e_10n_to_12n", "_5e_to_6e_70s_to_71s", "_199.2e_to_201.2e_22n_to_23n"],
                           rng.choice([1, 2, 3]))]
        C = sum(n for _, n in subs)
    f = File(fam, lay, T, H, C)
    sh = (T, H, C)
    f.times = times(rng, T, lay != "ncol")
    tv = cells(rng, *sh)
    hyds = ["cl", "ci"] + (["pl"] if rain else []) + ([] if one_ice else ["pi"])
    all4 = list(CL4) if rng.random() < .7 and not one_ice else hyds
    v = {"T": (tv, {"units": "K"}), "Q": (pick(rng, -6, -2, .1, sh), {"units": "kg/kg"})}
    z = np.sort(np.array([rng.uniform(20, 18000) for _ in range(T * H * C)]).reshape(sh), axis=1)[:, ::-1]
    v["Z3"] = (z, {"units": "m"})
    for x, n in zip(CL4, ("NUMLIQ", "NUMICE", "NUMRAI", "NUMSNO")):
        if x in all4:
            v[n] = (pick(rng, 3, 9, .15, sh), {"units": "1/kg"})
    for x, n in zip(CL4, ("CLDLIQ", "CLDICE", "RAINQM", "SNOWQM")):
        if x in all4:
            v[n] = (pick(rng, -9, -3, .15, sh), {"units": "kg/kg"})
    for x, n in zip(CL4, ("FREQL", "FREQI", "FREQR", "FREQS")):
        if x in all4:
            v[n] = (np.array([rng.choice([0., .25, 1., rng.random()]) for _ in range(T * H * C)]).reshape(sh), {})
    v["CLOUD"] = (np.array([rng.random() for _ in range(T * H * C)]).reshape(sh), {})
    for x, n, lo in zip(CL4, ("AREL", "AREI", "ADRAIN", "ADSNOW"), (0, .5, -4.5, -4.5)):
        if x in all4:
            fine = rng.choice([0, 0, .8])                     # a few radii below a micron
            v[n] = (pick(rng, lo - fine, lo + 1.3, .2, sh), {"units": "micron" if lo >= 0 else "m"})
    v["RELVAR"] = (pick(rng, -1, 1, 0, sh), {})
    if scheme == "P3":
        v["BVRIM"] = (pick(rng, -12, -7, .1, sh), {"units": "m3/kg"})
        fr = np.array([rng.choice([0., 1., .004, rng.random()]) for _ in range(T * H * C)]).reshape(sh)
        v["CLDRIM"] = (v["CLDICE"][0] * fr, {"units": "kg/kg"})
    elif rng.random() < .5:
        v["mu_cloud"] = (pick(rng, 0, 1, 0, sh), {})
        v["lambda_cloud"] = (pick(rng, 4, 6, 0, sh), {})
    single = {n for n in v if rng.random() < .4} - {"CLDRIM", "CLDICE", "BVRIM"}
    hyam = np.array([rng.uniform(0, .3) for _ in range(H)])
    hybm = np.array([rng.uniform(0, .7) for _ in range(H)])
    f.P0, f.hyam, f.hybm = 100000., hyam, hybm
    f.PS = np.array([rng.uniform(50000, 104000) for _ in range(T * C)]).reshape(T, C)
    lev = {"lev": ("lev", np.sort(np.array(rng.sample(range(2, 1000), H), float)), {"units": "hPa", "positive": "down"})}
    flat = {"hyam": ("lev", hyam, {}), "hybm": ("lev", hybm, {})}
    tcrd = {"time": ("time", np.array(f.times, float), {"units": "minutes since 2020-01-01 00:00:00",
                                                        "calendar": rng.choice(["standard", "noleap"])})}
    ren = {}
    if lay in ("column", "single", "region", "appended"):
        lat, lon = np.array(rng.sample(range(-80, 80), nlat), float), np.array(rng.sample(range(0, 359), nlon), float)
        f.lat, f.lon = [lat[i // nlon] for i in range(C)], [lon[i % nlon] for i in range(C)]
        if lay == "column":
            dims, so = ("time", "lev"), lambda a: a[:, :, 0]
            flat["PS"] = (("time",), f.PS[:, 0], {"units": "Pa"})
        else:
            dims = ("time", "lev", "lat", "lon")
            so = lambda a: a.reshape(T, H, nlat, nlon)
            flat["PS"] = (("time", "lat", "lon"), f.PS.reshape(T, nlat, nlon), {"units": "Pa"})
            tcrd["lat"], tcrd["lon"] = ("lat", lat), ("lon", lon)
        if lay == "appended":
            la, lo = rng.choice([("_36n_to_38n", "_262e_to_264e"), ("_75s", "_5w_to_7w"), ("_10n_to_12n", "_10e_to_12e")])
            full = (lo + la) if rng.random() < .7 else (la + lo)
            ren = {n: n + full for n in list(v) + ["PS"]}
            ren.update(lat="lat" + la, lon="lon" + lo)
    elif lay == "ncol":
        # every position of the track is a time of its own
        dims, so = rng.choice([(("ncol", "lev"), lambda a: a[:, :, 0]), (("lev", "ncol"), lambda a: a[:, :, 0].T)])
        flat["PS"] = (("ncol",), f.PS[:, 0], {"units": "Pa"})
        flat["lat"] = ("ncol", np.array(rng.sample(range(-80, 80), T), float), {})
        flat["lon"] = ("ncol", np.array(rng.sample(range(0, 350), T), float), {})
        tcrd = {"time": ("ncol", np.array(f.times, float), tcrd["time"][2])}
    if lay != "subdomains":
        ds = write(path, f, dims, so, {"P0": f.P0}, v, flat, single)
    else:
        ds, a = {}, 0
        f.lat, f.lon = ([float(x) for x in rng.sample(range(lo, hi), C)] for lo, hi in ((-80, 80), (0, 359)))
        for s, n in subs:
            sl = slice(a, a + n)
            part = write(path, f, ("time", "lev", "ncol" + s), lambda q: q[:, :, sl], {"P0": f.P0}, v, flat, single)
            for k, w in part.items():
                ds[k + s if k in v else k] = w
            ds["PS" + s] = (("time", "ncol" + s), f.PS[:, sl], {"units": "Pa"})
            ds["lat" + s] = (("ncol" + s,), np.array(f.lat[sl]))
            ds["lon" + s] = (("ncol" + s,), np.array(f.lon[sl]))
            a += n
    x = xr.Dataset(ds, coords={**lev, **tcrd})
    if ren:
        x = x.rename(ren)
    x.to_netcdf(path)
    x.close()
    f.hyds = hyds
    f.extra = ["T", "Q", "Z3", "CLOUD", "RELVAR"] + [n for n in ("mu_cloud", "lambda_cloud", "CLDRIM", "BVRIM") if n in v]
    return f


def modele(rng, path, lay):
    T, H = rng.choice([1, 2, 3]), rng.choice([2, 3, 5])
    nlat, nlon = (1, 1) if lay != "region" else rng.choice([(2, 3), (3, 1), (1, 2), (2, 2)])
    C = nlat * nlon
    f = File("ModelE", lay, T, H, C)
    sh = (T, H, C)
    f.times = times(rng, T)
    v = {"t": (cells(rng, *sh), {"units": "K"}), "q": (pick(rng, -6, -2, .1, sh), {"units": "kg/kg"}),
         "z": (np.sort(np.array([rng.uniform(20, 18000) for _ in range(T * H * C)]).reshape(sh), axis=1), {"units": "m"}),
         "p_3d": (-np.sort(-np.array([rng.uniform(5, 1040) for _ in range(T * H * C)]).reshape(sh), axis=1),
                  {"units": "mb"})}
    for x in CL4:
        X = x.upper()
        v["n" + x] = (pick(rng, -4, 3, .15, sh), {})
        v["q" + x] = (pick(rng, -9, -3, .15, sh), {})
        v["Q" + X + "mc"] = (pick(rng, -9, -3, .15, sh), {})
        for n in ("cldmc", "cldss"):
            v[n + x] = (np.array([rng.choice([0., 1., rng.random()]) for _ in range(T * H * C)]).reshape(sh), {})
        v["re_mc" + x], v["re_ss" + x] = (pick(rng, 0, 2, .15, sh), {}), (pick(rng, 0, 2, .15, sh), {})
    v["cldmcr"] = v["cldmccl"]
    v["cldssr"] = v["cldsscl"]
    single = {n for n in v if rng.random() < .4}
    lev = rng.choice(["p", "level"])
    crd = {lev: (lev, np.sort(np.array(rng.sample(range(2, 1000), H), float))[::-1].copy(), {"units": "mb"}),
           "time": ("time", np.array(f.times, float), {"units": "minutes since 2020-01-01 00:00:00"})}
    lat, lon = np.array(rng.sample(range(-80, 80), nlat), float), np.array(rng.sample(range(0, 359), nlon), float)
    f.lat, f.lon = [lat[i // nlon] for i in range(C)], [lon[i % nlon] for i in range(C)]
    if lay == "column":
        dims, so = rng.choice([(("time", lev), lambda a: a[:, :, 0]), ((lev, "time"), lambda a: a[:, :, 0].T)])
    else:
        dims, so = ("time", lev, "lat", "lon"), lambda a: a.reshape(T, H, nlat, nlon)
        crd["lat"], crd["lon"] = ("lat", lat), ("lon", lon)
    x = xr.Dataset(write(path, f, dims, so, {}, v, {}, single), coords=crd)
    x.to_netcdf(path)
    x.close()
    f.hyds, f.extra = list(CL4), ["t", "q", "z"]
    return f


def dharma(rng, path, lay, two):
    T, H = rng.choice([1, 2, 3]), rng.choice([2, 3, 5])
    ny, nx = (1, 1) if lay != "region" else rng.choice([(2, 3), (3, 1), (1, 2), (3, 2)])
    C = ny * nx
    f = File("DHARMA", lay, T, H, C)
    sh = (T, H, C)
    f.times = times(rng, T)
    v = {"t": (cells(rng, *sh), {"units": "K"}), "q": (pick(rng, -6, -2, .1, sh), {"units": "kg/kg"}),
         "z": (np.sort(np.array([rng.uniform(20, 18000) for _ in range(T * H * C)]).reshape(sh), axis=1), {"units": "m"}),
         "p": (-np.sort(-np.array([rng.uniform(5, 1040) for _ in range(T * H * C)]).reshape(sh), axis=1), {"units": "hPa"}),
         "conv_dat": (np.zeros(sh), {})}
    f.hyds = list(CL4) + (["pir"] if two else [])
    for x in f.hyds:
        v["n" + x], v["q" + x] = (pick(rng, -4, 3, .15, sh), {}), (pick(rng, -9, -3, .15, sh), {})
        v["strat_%s_frac" % x] = (np.array([rng.choice([0., 1.]) for _ in range(T * H * C)]).reshape(sh), {})
        v["re_strat_" + x] = (pick(rng, 0, 2, .15, sh), {})
    single = {n for n in v if rng.random() < .5}
    crd = {"time": ("time", np.array(f.times), {"units": "minutes since 2020-01-01 00:00:00"})}
    yv, xv = np.sort(np.array(rng.sample(range(0, 60), ny), float)) * 100, np.sort(np.array(rng.sample(range(0, 60), nx), float)) * 100
    f.lat, f.lon = [yv[i // nx] for i in range(C)], [xv[i % nx] for i in range(C)]
    if lay == "column":
        dims, so = ("time", "hgt"), lambda a: a[:, :, 0]
    else:
        dims, so = rng.choice([(("time", "hgt", "y", "x"), lambda a: a.reshape(T, H, ny, nx)),
                               (("time", "y", "x", "hgt"), lambda a: a.reshape(T, H, ny, nx).transpose(0, 2, 3, 1))])
        crd["y"], crd["x"] = ("y", yv), ("x", xv)
    x = xr.Dataset(write(path, f, dims, so, {}, v, {}, single), coords=crd)
    x.to_netcdf(path)
    x.close()
    f.extra = ["t", "q", "z"]
    return f


WQ = {"cl": "QCLOUD", "ci": "QICE", "pl": "QRAIN", "pi": "QSNOW", "sn": "QSNOW", "gr": "QGRAUP", "ha": "QHAIL"}
WN = {"mor": {"cl": "QNCLOUD", "ci": "QNICE", "pl": "QNRAIN", "pi": "QNSNOW", "gr": "QNGRAUPEL"},
      "nssl": {"cl": "QNDROP", "ci": "QNICE", "pl": "QNRAIN", "sn": "QNSNOW", "gr": "QNGRAUPEL", "ha": "QNHAIL"}}
WR = {"cl": "REFC", "ci": "REFI", "pl": "REFR", "sn": "REFS", "gr": "REFG", "ha": "REFH"}


def wrf(rng, path, lay, scheme, gr, cut):
    T, H = rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    ny, nx = (1, 1) if lay != "region" else rng.choice([(2, 3), (3, 1), (1, 2), (3, 4), (4, 3)])
    C = ny * nx
    f = File("WRF", lay, T, H, C)
    sh = (T, H, C)
    f.times = times(rng, T)
    p = -np.sort(-np.array([rng.uniform(500, 104000) for _ in range(T * H * C)]).reshape(sh), axis=1)
    base = p * rng.uniform(.9, 1.1)
    v = {"TK": (cells(rng, *sh), {}), "P": (p - base, {"units": "Pa"}), "PB": (base, {"units": "Pa"}),
         "GEOZ": (np.sort(np.array([rng.uniform(20, 18000) for _ in range(T * H * C)]).reshape(sh), axis=1), {}),
         "WA": (pick(rng, -1, 1, .1, sh), {}), "QVAPOR": (pick(rng, -6, -2, .1, sh), {}),
         "CLDFRA": (np.array([rng.choice([0., 1., rng.random()]) for _ in range(T * H * C)]).reshape(sh), {})}
    f.hyds = ["cl", "ci", "pl", "sn", "gr", "ha"] if scheme == "nssl" else list(CL4) + (["gr"] if gr else [])
    for x in f.hyds:
        lo = np.log10(cut) if rng.random() < .5 and cut > 0 else -6
        v[WQ[x]] = (pick(rng, lo - 2, lo + 3, .2, sh), {})
        v[WN["nssl" if scheme == "nssl" else "mor"][x]] = (pick(rng, 3, 9, .15, sh), {})
        if scheme == "nssl":
            v[WR[x]] = (pick(rng, 0, 2, .15, sh), {})
            if x in ("gr", "ha"):
                dens = np.array([rng.uniform(170, 900) for _ in range(T * H * C)]).reshape(sh)
                v["QV" + ("GRAUPEL" if x == "gr" else "HAIL")] = (v[WQ[x]][0] / dens, {})
    dims, so = ("Time", "bottom_top", "south_north", "west_east"), lambda a: a.reshape(T, H, ny, nx)
    lat = np.linspace(10, 10 + 2 * ny, ny)[:, None] + np.linspace(0, .3, nx)[None, :]
    lon = np.linspace(-100, -100 + 3 * nx, nx)[None, :] + np.linspace(0, .4, ny)[:, None]
    f.lat, f.lon = list(lat.ravel()), list(lon.ravel())
    ds = write(path, f, dims, so, {}, v, {}, {n for n in v if rng.random() < .5 and n not in ("P", "PB")})
    x = xr.Dataset(ds, coords={
        "XLAT": (("Time", "south_north", "west_east"), np.tile(lat, (T, 1, 1))),
        "XLONG": (("Time", "south_north", "west_east"), np.tile(lon, (T, 1, 1))),
        "XTIME": ("Time", np.array(f.times), {"units": "minutes since 2020-01-01 00:00:00"})})
    x.to_netcdf(path)
    x.close()
    f.extra = ["QVAPOR"]
    f.ny, f.nx, f.latg, f.long = ny, nx, lat, lon
    return f
