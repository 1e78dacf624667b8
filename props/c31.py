"""C31 model output is read as it is (spec/Load*.tla)."""
import copy
import hashlib
import math
import os
import random
import shutil
import tempfile

import files                      # before emc2: provides a stand-in for the optional wrf-python
import numpy as np
import xarray as xr
from scipy.interpolate import RegularGridInterpolator
from scipy.special import gammaln
import vlib
from vlib import call, fx, fxs, lg, lgs, NNAN
from emcfix import instrument
from emc2.core.model import CESM2, DHARMA, WRF, E3SMv1, E3SMv3, ModelE

ROLES = dict(N="N_field", qs="q_names_stratiform", qc="q_names_convective", fs="strat_frac_names", fc="conv_frac_names",
             fsr="strat_frac_names_for_rad", fcr="conv_frac_names_for_rad", res="strat_re_fields", rec="conv_re_fields")
TOP = {"E3SM": ("T", "lev"), "ModelE": ("t", None), "DHARMA": ("t", "hgt"), "WRF": ("TK", "bottom_top")}


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def places(m, name):
    """Values of a field for every place: columns slow, levels fast."""
    d = m.ds[name]
    want = [m.time_dim, m.height_dim]
    if any(x not in want for x in d.dims):
        raise vlib.RecordError("field %s has dimensions %s" % (name, d.dims))
    if m.height_dim in d.dims and m.time_dim in d.dims:
        return np.asarray(d.transpose(*want).values, float).ravel()
    n, h = m.ds.sizes[m.time_dim], m.ds.sizes[m.height_dim]
    v = np.asarray(d.values, float)
    return (np.repeat(v, h) if m.time_dim in d.dims else np.tile(v, n)) if v.ndim else np.full(n * h, float(v))


def labels(m):
    """time (minutes), latitude, longitude of every column, Nan where none is given."""
    n = m.ds.sizes[m.time_dim]
    out = [[NNAN] * 3 for _ in range(n)]
    tn = m.stacked_time_dim or m.time_dim
    for j, names in enumerate(((("time",) if tn == "ncol" else (tn,)), (m.lat_dim, "lat") if m.lat_dim != "south_north" else ("XLAT",),
                           (m.lon_dim, "lon") if m.lat_dim != "south_north" else ("XLONG",))):
        for nm in names:
            if nm == "ncol" or nm not in m.ds.variables or m.ds[nm].dims != (m.time_dim,):
                continue
            v = m.ds[nm].values
            if j == 0 and not np.issubdtype(v.dtype, np.datetime64):
                continue
            for i in range(n):
                out[i][j] = files.mins(v[i]) if j == 0 else fx(v[i], .001)
            break
    return out


def window(rng, f):
    """(arguments for the loader, t0, t1); half of the bounds are output times themselves"""
    r = rng.random()
    if r < .35:
        return None, -1, -1
    e = sorted(f.times)
    pick = lambda: rng.choice(e) if rng.random() < .5 else rng.randrange(-5, 3005)
    a, b = sorted((pick(), pick()))
    if rng.random() < .15:
        a, b = 4000, 5000
    if a < 0:
        a = 0
    if a == b:
        b += 1
    t = [files.BASE + np.timedelta64(int(q), "m") for q in (a, b)]
    form = rng.choice([np.array, tuple, list])
    if form is not np.array:
        t = [np.datetime64(q, "ns") for q in t]
    return form(t), a, b


def tables(rng, m, lut, hybrid):
    """The look-up functions a P3 model takes from its instrument, at nodes of the table and half-way between them."""
    ev = []
    for kind, last, names in (("bulk", "q_norm", ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "vt_m_weight", "Z", "ri_eff",
                                                  "Dm_m_weight", "rho_m_weight")),
                              ("single", "p_diam", ("vt", "A", "V") + (("D_eq_vol_sphere",) if hybrid else ()))):
        ax = [lut[n].values for n in ("Fr", "rho_r", last)]
        for n in names:
            v = lut[n].transpose("Fr", "rho_r", "d" if kind == "single" else "q_norm").values
            for _ in range(3):
                i = [rng.randrange(len(a)) for a in ax]
                j = list(i)
                x = rng.randrange(3)
                if i[x] + 1 < len(ax[x]):
                    j[x] += rng.choice([0, 1, 1])
                a, b = float(v[tuple(i)]), float(v[tuple(j)])
                if not (math.isfinite(a) and math.isfinite(b)):
                    continue
                y, err = call(lambda: m.interpobj[kind][n](tuple((ax[d][i[d]] + ax[d][j[d]]) / 2 for d in range(3))))
                u = max(abs(a), abs(b)) / 1e6 or 1.
                ev.append(dict(op="lut", err=err, what=n, a=fx(a, u), b=fx(b, u), y=0 if err else fx(float(y), u)))
    g = RegularGridInterpolator([lut[n].values for n in ("Fr", "rho_r", "q_norm")],
                                lut["lambda"].transpose("Fr", "rho_r", "q_norm").values, bounds_error=False)
    at = np.stack([places(m, n) for n in ("Fr", "rho_r", "qi_norm")], axis=1)
    y, w = lgs(g(at)), lgs(places(m, "lambda_ice"))
    mu, n0 = places(m, "mu_ice"), places(m, "N0_norm_ice")
    ev.append(dict(op="psd", lam=w, want=y, mu=fxs(mu, 1e-3), mu2=lgs(mu + 2), gam=fxs(gammaln(mu + 1), 1e-6), n0=lgs(n0),
                   hyb=int(hybrid), has=int(m.p3_kws["use_hybrid_scat"])))
    return ev


def job(item, rng):
    fam, lay, rep = item
    d = tempfile.mkdtemp(prefix="c31_")
    try:
        return one(fam, lay, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(fam, lay, rng, d):
    path = os.path.join(d, "out.nc")
    opt = dict(rain=0, oneice=0, gr=0, two=0)
    kw, cut, nu, box = {}, 1e-14, 0, dict(k="none")
    if fam in ("E3SMv1", "E3SMv3", "CESM2"):
        sf = "E3SM"
        scheme = "P3" if fam == "E3SMv3" and rng.random() < .85 else "MG2"
        if fam == "CESM2":
            rain, one_ice = False, False
            if lay == "subdomains":
                lay = "appended"
        else:
            rain, one_ice = rng.random() < .5, scheme == "P3" or rng.random() < .3
            kw = dict(include_rain_in_rt=rain, single_ice_class=one_ice, mcphys_scheme=scheme)
        opt.update(rain=int(rain), oneice=int(one_ice))
        f = files.e3sm(rng, path, fam, lay, rain, one_ice, scheme)
        if lay == "ncol":
            kw["time_dim"] = "ncol"
        elif lay == "subdomains":
            kw.update(appended_str=True, all_appended_in_lat=True)
        elif lay == "appended" or rng.random() < .2:
            kw["appended_str"] = True
            if lay == "column":
                del kw["appended_str"]
        clip = 0
        if fam == "E3SMv3" and scheme == "P3" and rng.random() < .6:
            kw.update(instrument=instrument(rng.choice(["KAZR", "HSRL"])), use_hybrid_scat=rng.choice([False, 1, 2]))
            clip = 1
        cls = dict(E3SMv1=E3SMv1, E3SMv3=E3SMv3, CESM2=CESM2)[fam]
        names = (fam, "P3" if fam == "E3SMv3" and scheme == "P3" else "CESM", scheme)
    elif fam == "ModelE":
        sf, cls = fam, ModelE
        f, names = files.modele(rng, path, lay), ("ModelE3", "ModelE", "MG2")
    elif fam == "DHARMA":
        sf, cls = fam, DHARMA
        two = rng.random() < .5
        opt["two"] = int(two)
        kw = dict(time_dim="time", single_pi_class=not two)
        f, names = files.dharma(rng, path, lay, two), ("DHARMA", "ModelE", "MG")
        if lay == "region" and rng.random() < .6:
            xs, ys = (sorted({int(v) for v in w}) for w in (f.lon, f.lat))
            x0, y0 = rng.choice(xs), rng.choice(ys)
            a = [x0 - rng.choice([0, 50]), y0 - rng.choice([0, 50]), rng.choice([v for v in xs if v >= x0]) + rng.choice([0, 50]),
                 rng.choice([v for v in ys if v >= y0]) + rng.choice([0, 50])]
            kw["bounding_box"] = tuple(float(v) for v in a)
            box = dict(k="xy", a=[v * 1000 for v in a])
    else:
        scheme = rng.choice(["morrison", "nssl"])
        sf, cls = "WRF-nssl" if scheme == "nssl" else "WRF-mor", WRF
        gr = rng.random() < .5
        nu = int(rng.random() < .4)
        opt["gr"] = int(gr)
        cut = rng.choice([1e-14, 1e-14, 1e-9, 1e-7])
        kw = dict(mcphys_scheme=scheme, NUWRF=bool(nu), include_gr_class=gr, gr_class_is_hail=rng.random() < .5)
        if cut != 1e-14 or rng.random() < .3:
            kw["q_hyd_truncation_cutoff"] = cut
        f, names = files.wrf(rng, path, lay, scheme, gr, cut), ("WRF", "ModelE", scheme)
        if lay == "region" and rng.random() < .6:
            i0, j0 = rng.randrange(f.ny), rng.randrange(f.nx)
            i1, j1 = rng.randrange(i0, f.ny), rng.randrange(j0, f.nx)
            jit = lambda: rng.choice([0., rng.uniform(-.2, .2)])
            a = [f.latg[i0].min() + jit(), f.long[:, j0].min() + jit(), f.latg[i1].max() + jit(), f.long[:, j1].max() + jit()]
            a = [min(a[0], a[2]), min(a[1], a[3]), max(a[0], a[2]), max(a[1], a[3])]
            kw["bounding_box"] = tuple(float(v) for v in a)
            box = dict(k="ll", nx=f.nx, a=fxs(a, .0001), latlo=fxs(f.latg.min(1), .0001), lathi=fxs(f.latg.max(1), .0001),
                       lonlo=fxs(f.long.min(0), .0001), lonhi=fxs(f.long.max(0), .0001))
    tr, t0, t1 = window(rng, f)
    refuse = 0
    if tr is not None and sf in ("E3SM", "ModelE", "DHARMA") and rng.random() < .08:
        refuse, tr = 1, np.array([float(t0), float(t1)])
    if tr is not None:
        kw["time_range"] = tr
    before = sha(path)
    m, err = call(cls, path, **kw, timeout=120)
    what = "%s %s %s times %s of %s" % (fam, lay, {q: w for q, w in kw.items() if q not in ("instrument", "time_range")},
                                        (t0, t1), f.times)
    e = dict(op="load", fam=sf, err=err, refuse=refuse, same=int(sha(path) == before), wname=names[0], wrad=names[1],
             wmic=names[2], hyds=[], name="", rad="", mic="", **opt)
    if err or refuse:
        return what, {"ev": [e]}
    e.update(hyds=list(m.hyd_types), name=m.model_name, rad=m.rad_scheme_family, mic=m.mcphys_scheme)
    ev = [e]
    # recognise the cells
    tname = TOP.get(sf, TOP["WRF"])[0]
    tab = {}
    for idx in np.ndindex(f.T, f.H, f.C):
        tab[round(float(f.vals[tname][idx]) * 16)] = idx
    tl = places(m, m.T_field)
    idx = [tab.get(round(float(v) * 16)) for v in tl]
    H, n = m.ds.sizes[m.height_dim], m.ds.sizes[m.time_dim]
    lev, flev = [], []
    if m.height_dim in m.ds.coords:
        with xr.open_dataset(path, decode_times=False) as o:
            if m.height_dim in o.coords:
                flev, lev = fxs(o[m.height_dim].values, .001), fxs(m.ds[m.height_dim].values, .001)
    ev.append(dict(op="grid", fam=sf, H=H, cells=[[0, 0, 0] if q is None else [q[0] + 1, q[2] + 1, q[1] + 1] for q in idx],
                   times=[int(t) for t in f.times], t0=t0, t1=t1, lat=fxs(f.lat, .001), lon=fxs(f.lon, .001), box=box,
                   labels=labels(m), lev=lev, flev=flev))
    if lay == "ncol":                                      # a track: positions are not coordinates of their own
        ev[-1]["labels"] = [[r[0], NNAN, NNAN] for r in ev[-1]["labels"]]
    if lay == "column" and not sf.startswith("WRF"):
        ev[-1]["lat"], ev[-1]["lon"] = [0], [0]
    if any(q is None for q in idx):
        return what, {"ev": ev}
    F = lambda name: [float(f.vals[name][q]) for q in idx]
    rho = lgs(places(m, "rho_a"))
    P = places(m, m.p_field)
    if sf == "E3SM":
        a, b = [f.P0 * f.hyam[q[1]] for q in idx], [f.PS[q[0], q[2]] * f.hybm[q[1]] for q in idx]
    elif sf.startswith("WRF"):
        a, b = F("P"), F("PB")
    else:
        a, b = [v * 100 for v in F(m.p_field)], [0.] * len(idx)
    ev.append(dict(op="air", p=fxs(P * 100, .01), pa=fxs(a, .01), pb=fxs(b, .01), unit=str(m.ds[m.p_field].attrs.get("units")),
                   rho=rho, lp=lgs(P), lt=lgs(F(tname))))
    plain = dict((q, q) for q in f.extra)
    if sf.startswith("WRF"):
        plain.update(Z="GEOZ", QVAPOR="QVAPOR")
        plain[m.T_field] = "TK"
    for a in sorted(plain):
        ev.append(dict(op="field", fam=sf, role="plain", x="", name=a, fx=lgs(F(plain[a])), y=lgs(places(m, a))))
    for role, attr in ROLES.items():
        for x in m.hyd_types:
            nm = getattr(m, attr)[x]
            if sf.startswith("WRF") and (role == "rec" or role == "res" and "nssl" not in sf):
                continue
            g = dict(op="field", fam=sf, role=role, x=x, name=nm, y=lgs(places(m, nm)), rho=rho, nu=nu, cut=lg(cut))
            if nm in f.vals:
                g["fx"] = lgs(F(nm))
            elif sf.startswith("WRF") and role == "qs":
                g["name"], g["fx"] = files.WQ[x], lgs(F(files.WQ[x]))
            elif nm not in ("zeros_cf", "conv_dat") and not sf.startswith("WRF"):
                g["fx"] = []
            if sf.startswith("WRF"):
                g.update(q=lgs(F(files.WQ[x])), cf=lgs(F("CLDFRA")))
                if role in ("qc", "fc", "fcr", "fs", "fsr"):
                    g["fx"] = []
            ev.append(g)
    if sf == "WRF-nssl":
        for x, v in (("gr", "QVGRAUPEL"), ("ha", "QVHAIL")):
            ev.append(dict(op="field", fam=sf, role="dens", x=x, name=m.variable_density[x], y=lgs(places(m, m.variable_density[x])),
                           q=lgs(F(files.WQ[x])), v=lgs(F(v)), full=lg(900.)))
    if sf == "E3SM" and m.mcphys_scheme == "P3":
        lo, hi = [0] * 3, [0] * 3
        if clip:
            lut = kw["instrument"].scat_table["p3_ice"]
            lo, hi = ([lg(g(lut[q].values)) for q in ("Fr", "rho_r", "q_norm")] for g in (np.nanmin, np.nanmax))
        ev.append(dict(op="p3", N=lgs(F("NUMICE")), f=lgs(F("FREQI")), q=lgs(F("CLDICE")), qr=lgs(F("CLDRIM")), vr=lgs(F("BVRIM")),
                       rho=rho, Ni=lgs(places(m, m.p3_kws["in_cld_Ni_name"])), Fr=lgs(places(m, "Fr")), rr=lgs(places(m, "rho_r")),
                       qn=lgs(places(m, "qi_norm")), clip=clip, lo=lo, hi=hi))
        if clip:
            ev += tables(rng, m, lut, kw["use_hybrid_scat"])
    if not sf.startswith("WRF") and m.stacked_time_dim is None and rng.random() < .4:
        p2 = os.path.join(d, "again.nc")
        keep = {q: (v.dims, np.array(v.values)) for q, v in m.ds.data_vars.items() if np.issubdtype(v.dtype, np.floating)}
        m.ds.to_netcdf(p2)
        k2 = {q: w for q, w in kw.items() if q not in ("time_range", "instrument", "bounding_box")}
        m2, err = call(cls, p2, load_processed=True, **k2)
        for q in sorted(keep) if not err else [""]:
            if err:
                ev.append(dict(ev[0], err=err, same=1))
                break
            if q not in m2.ds or m2.ds[q].dims != keep[q][0]:
                ev.append(dict(op="field", fam=sf, role="again", x="", name=q, fx=[0], y=[]))
                continue
            r = np.asarray(keep[q][1], float).ravel()
            s = np.asarray(m2.ds[q].values, float).ravel()
            ev.append(dict(op="field", fam=sf, role="again", x="", name=q, fx=lgs(np.abs(r)), y=lgs(np.abs(s))))
    return what, {"ev": ev}


LAYS = {"E3SM": ["column", "single", "region", "ncol", "subdomains", "appended"], "other": ["column", "single", "region"]}


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 31)
    for x in ("KAZR", "HSRL"):
        instrument(x)
    big = vlib.THOROUGH
    inv = ["Aligned", "Upward", "Once", "Complete", "Labelled"]
    k = dict(NT=3, NL=3 if big else 2, Sub1=2, Sub2=1)
    c.model("LoadMC", dict(k, Bug='"none"'), inv, deadlock=False, workers=8, props=["Finishes"])
    for b, w in (("joined", "Aligned"), ("flat", "Aligned"), ("coordinate", "any"), ("closed", "Complete"),
                 ("shared", "Once"), ("labels", "Labelled")):
        c.model("LoadMC", dict(NT=2, NL=2, Sub1=2, Sub2=1, Bug='"%s"' % b), inv, expect=w, deadlock=False)
    fams = [(f, l) for f in ("E3SMv1", "E3SMv3", "CESM2") for l in LAYS["E3SM"]]
    fams += [(f, l) for f in ("ModelE", "DHARMA", "WRF") for l in LAYS["other"] + ["region"]]
    its = [(f, l, i) for i in range(25 if big else 5) for f, l in fams]
    traces = vlib.pmap(job, its)
    c.info["files"] = len(traces)
    c.info["cells"] = sum(len(e["cells"]) for _, t in traces for e in t["ev"] if e["op"] == "grid")
    corrupt = damage(traces, rng)
    c.validate("LoadTrace", traces, corrupt, workers=8)


def damage(traces, rng):
    out = []

    def find(cl, ok, change):
        for _, t in rng.sample(traces, len(traces)):
            for i, e in enumerate(t["ev"]):
                if not e.get("err") and ok(e):
                    w = copy.deepcopy(t)
                    change(w["ev"][i])
                    out.append((cl, {"ev": w["ev"][:i + 1]}))
                    return

    def bump(field, n=0):
        def f(e):
            e[field][n] = e[field][n] + 50 if abs(e[field][n]) < 1.8e9 else 1
        return f

    op = lambda o, **kw: (lambda e: e["op"] == o and all(e.get(a) == b for a, b in kw.items()))
    num = lambda a: abs(a) < 1900000000
    find("call_completes", op("load", refuse=0), lambda e: e.update(err="X"))
    find("refuses_bad_window", op("load", refuse=0), lambda e: e.update(refuse=1))
    find("classes_of_the_model", op("load", refuse=0), lambda e: e["hyds"].pop())
    find("named", op("load", refuse=0), lambda e: e.update(rad="x"))
    find("file_untouched", op("load", refuse=0), lambda e: e.update(same=0))
    find("every_cell_from_the_file", lambda e: e["op"] == "grid" and e["cells"], lambda e: e["cells"].__setitem__(0, [0, 0, 0]))
    two = lambda e: e["op"] == "grid" and len(e["cells"]) > e["H"] > 1
    find("columns_kept_together", lambda e: two(e) and e["cells"][0][:2] != e["cells"][e["H"]][:2],
         lambda e: e["cells"].__setitem__(0, e["cells"][e["H"]]))
    find("levels_upwards", lambda e: e["op"] == "grid" and e["cells"], lambda e: e["cells"][:e["H"]].reverse() or e["cells"].__setitem__(0, e["cells"][1]))
    find("exactly_the_columns_wanted", two, lambda e: e.update(cells=e["cells"][e["H"]:]))
    find("exactly_the_columns_wanted", lambda e: e["op"] == "grid" and e["t0"] in e["times"] and len(e["times"]) > 1 and
         any(e["t0"] < t < e["t1"] for t in e["times"]), lambda e: e.update(t0=e["t0"] + 1))
    find("labelled_as_in_the_file", lambda e: e["op"] == "grid" and e["labels"] and e["labels"][0][0] != NNAN,
         lambda e: e["labels"][0].__setitem__(0, 7))
    find("level_axis_turned_over", lambda e: e["op"] == "grid" and e["lev"], lambda e: e["lev"].__setitem__(0, 7))
    find("pressure", lambda e: e["op"] == "air" and e["p"], lambda e: e["p"].__setitem__(0, e["p"][0] + 500))
    find("pressure", op("air"), lambda e: e.update(unit="Pa"))
    find("density", lambda e: e["op"] == "air" and e["p"], bump("rho"))
    find("unchanged", lambda e: op("field", role="plain")(e) and e["y"], bump("y"))
    for fam, role in (("E3SM", "N"), ("WRF-nssl", "N")):
        find("number_per_volume", lambda e: op("field", role=role, fam=fam)(e) and e["y"] and num(e["y"][0]), bump("y"))
    find("radius_in_um", lambda e: op("field", role="res", fam="E3SM", x="pl")(e) and e["y"] and num(e["y"][0]), bump("y"))
    find("radius_in_um", lambda e: op("field", role="res", fam="E3SM", x="cl")(e) and e["y"] and num(e["y"][0]), bump("y"))
    find("reads_its_variable", op("field", role="qs", fam="ModelE"), lambda e: e.update(name="x"))
    find("nothing_convective", lambda e: op("field", role="fc", fam="E3SM")(e) and e["y"], lambda e: e["y"].__setitem__(0, 0))
    find("cloud_where_water", lambda e: op("field", role="fs", fam="WRF-mor", x="pl")(e) and e["y"],
         lambda e: e["y"].__setitem__(0, 0 if e["y"][0] < 0 else vlib.NZERO))
    find("density_of_particles", lambda e: op("field", role="dens")(e) and e["y"], bump("y"))
    find("loaded_again_as_saved", lambda e: op("field", role="again")(e) and e["y"] and num(e["y"][0]), bump("y"))
    good = lambda e: e["op"] == "p3" and e["N"] and all(num(e[n][0]) for n in ("N", "f", "q", "qr", "vr", "Ni", "Fr", "rr", "qn"))
    for cl, n in (("in_cloud_number", "Ni"), ("rime_fraction", "Fr"), ("rime_density", "rr"), ("mass_per_crystal", "qn")):
        find(cl, good, bump(n))
    find("tables_of_the_instrument", op("lut"), lambda e: e.update(y=e["y"] + 1000))
    slope = lambda e: e["op"] == "psd" and e["lam"] and num(e["lam"][0])
    find("slope_from_the_table", slope, bump("lam"))
    find("shape_from_the_slope", slope, bump("mu2"))
    find("normalised", slope, lambda e: e["n0"].__setitem__(0, e["n0"][0] + 50000))
    find("scattering_choice_kept", op("psd"), lambda e: e.update(has=9))
    return out
