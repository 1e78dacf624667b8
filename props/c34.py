"""C34 instruments and their scattering tables (spec/InstrumentMC.tla, InstrumentTrace.tla)."""
import copy
import glob
import math
import os
import random
import shutil
import tempfile

import numpy as np
import xarray as xr

import vlib
from vlib import call, fx, lg, NNAN
from emcfix import quiet
from emc2.core import instruments as IN
from emc2.core import instrument as BASE
from emc2.core.instrument import Instrument, ureg
from emc2 import io as IO

LAY = {"mie": ["wavelength", "p_diam", "size_parameter", "compre_real", "compre_im", "scat_p", "alpha_p", "beta_p", "scat_eff", "ext_eff", "backscat_eff"],
       "c6": ["beam", "p_diam", "p_diam_eq_A", "p_diam_eq_V", "V", "A", "beta_p", "scat_p", "alpha_p", "beta_p_cross"],
       "mdad": ["beam", "p_diam", "p_diam_eq_A", "p_diam_eq_V", "p_diam_eq_VdivA", "V", "A", "beta_p", "scat_p", "alpha_p"],
       "bulk_c6": ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"],
       "bulk_mdad": ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]}
DIRS = {"mie_tables": "mie", "c6_tables": "c6", "mDAD_tables": "mdad", "bulk_c6_tables": "bulk_c6", "bulk_mDAD_tables": "bulk_mdad", "p3_tables": "p3"}
SLOTS = [("mie", "cl", "mie"), ("mie", "pl", "mie"), ("mie", "ci", "mie"), ("mie", "pi", "mie"), ("scat", "E3_ice", "c6"), ("scat", "CESM_ice", "mdad"),
         ("scat", "p3_ice", "p3"), ("bulk", "E3_ice", "bulk_c6"), ("bulk", "E3_liq", "bulk_c6"), ("bulk", "mie_ice_E3_PSD", "bulk_c6"),
         ("bulk", "CESM_ice", "bulk_mdad"), ("bulk", "CESM_liq", "nc"), ("bulk", "mie_ice_CESM_PSD", "bulk_mdad"), ("bulk", "p3_ice", "p3"),
         ("bulk", "p3_liq", "nc"), ("bulk", "mie_ice_P3_PSD", "p3")]
CLASSES = {"CSAPR": "radar", "XSACR": "radar", "KAZR": "site", "WACR": "site", "MWACR": "site", "BASTA": "site", "NEXRAD": "radar",
           "RL": "dark", "HSRL": "dark", "MPL": "dark", "CALIOP": "dark", "CEIL": "lidar", "Ten64nm": "lidar", "HSRL1064": "lidar"}
SITES = {"KAZR": ["sgp", "nsa", "awr", "ena", "mos"], "WACR": ["sgp", "awr", "mos", "micre"]}
LN = {"lnMHz": {str(f): lg(f * 1e6) for f in (6250, 9710, 34860, 95040, 3000)}, "lnNm": {str(w): lg(w * 1e-9) for w in (355, 532, 910, 1064)}}


def library():
    """Every table file as it is on disk: name -> (kind, {column: (values, unit)})."""
    out = {}
    for d, kind in DIRS.items():
        for f in sorted(glob.glob(os.path.join(os.path.dirname(BASE.__file__), d, "*"))):
            stem, x = os.path.splitext(os.path.basename(f))
            if x == ".nc":
                with xr.open_dataset(f) as ds:
                    ds = ds.load()
                cols = {v: (ds[v].values.astype(float).ravel(), ds[v].attrs.get("units", "")) for v in ds.data_vars}
                if kind == "p3":
                    cols["p_diam"] = (ds["d"].values.astype(float), "um")
                out[stem] = ("p3" if kind == "p3" else "nc", cols)
            else:
                with open(f) as g:
                    rows = [[float(w) for w in ln.replace(",", " ").split()] for ln in g if ln.strip()]
                a = np.array(rows)
                out[stem] = (kind, {n: (a[:, j], "") for j, n in enumerate(LAY[kind])})
    return out


LIB = library()


def word(u):
    return str(u).split("/")[0].replace("^", "").strip()


def column(t, n):
    n = n if n != "beam" else ("wavelength" if "wavelength" in t else "frequency")
    if n not in t:
        return None
    v = t[n].values
    if v.dtype == object:
        try:
            v = v.astype(float)
        except (TypeError, ValueError):
            return None
    return v.astype(float).ravel()


def proportional(a, b):
    """The same numbers but for one positive factor."""
    if a is None or a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)) or not np.array_equal(np.isinf(a), np.isinf(b)):
        return False
    ok = np.isfinite(b) & (b != 0)
    if np.any(a[np.isfinite(b) & (b == 0)] != 0):
        return False
    if not ok.any():
        return True
    r = a[ok] / b[ok]
    return bool(r[0] > 0 and np.all(np.abs(r / r[0] - 1) < 1e-6))


def same_table(t, kind, cols):
    for n, (b, _) in cols.items():
        if n == "vt":
            continue
        if not proportional(column(t, n), b):
            return False
    return True


def top(a):
    a = np.abs(a[np.isfinite(a)])
    return lg(a.max()) if a.size else NNAN


def look(i):
    o = dict(str=str(i.instrument_str), kind=str(i.instrument_class), freq=lg(i.freq), wave=lg(i.wavelength * 1e-6), kw=fx(i.K_w, .01), ext=fx(i.ext_OD),
             sfc=bool(i.OD_from_sfc), eta=fx(i.eta, .01), zmin=fx(i.Z_min_1km, .01), theta=fx(i.theta, .001), tables=[], cols=[], vt=dict(kept=False, rest=0, least=0))
    x = np.linspace(0., 1., 41)
    o["thr"] = [[fx(v, 1e-9) for v in w] for w in np.array([np.interp(x, d["LDR"], d["beta_p"]) for d in i.beta_p_phase_thresh]).T.tolist()]
    for fam, key, kind in SLOTS:
        book = {"mie": i.mie_table, "scat": i.scat_table, "bulk": i.bulk_table}[fam]
        if key not in book:
            continue
        t, slot = book[key], fam + "/" + key
        hits = [s for s, (k, cols) in LIB.items() if k == kind and same_table(t, k, cols)]
        o["tables"].append(dict(slot=slot, files=hits))
        if not hits:
            continue
        for n, (b, u) in LIB[hits[0]][1].items():
            if n == "vt":
                continue
            named = ""
            if kind == "p3":
                named = word(t[n].attrs.get("units", "m" if n == "p_diam" else ""))
            o["cols"].append(dict(slot=slot, kind=kind, col=n, unit=word(u), file=top(b), got=top(column(t, n)), named=named))
        if slot == "scat/p3_ice":
            raw, got = LIB[hits[0]][1]["vt"][0], column(t, "vt")
            gap = ~np.isfinite(raw)
            o["vt"] = dict(kept=bool(np.array_equal(raw[~gap], got[~gap])), least=lg(raw[~gap].min()),
                           rest=lg(got[gap][0]) if gap.any() and np.all(got[gap] == got[gap][0]) else lg(raw[~gap].min()) if not gap.any() else NNAN)
    return o


def attempt(cls, args, kw):
    """Build an instrument; a refusal is an outcome."""
    def go():
        try:
            return getattr(IN, cls)(*args, **kw), ""
        except ValueError:
            return None, "ValueError"
    r, err = call(go)
    return (None, err) if err else r


def build(rng, cls=None, site=None):
    cls = cls or rng.choice(sorted(CLASSES))
    how = CLASSES[cls]
    args, kw, e = [], {}, dict(op="build", cls=cls, site="", cold=True, extra=False)
    if how == "site":
        known = SITES["KAZR" if cls == "KAZR" else "WACR"]
        s = site or (rng.choice(["twp", "ena" if cls != "KAZR" else "micre", "", "sgpc1"]) if rng.random() < .15 else rng.choice(known))
        e["site"] = s
        s = rng.choice([s, s.upper(), s.capitalize()])
        args.append(s)
    if how != "dark":
        e["cold"] = rng.random() < .6
        e["extra"] = rng.random() < .35
        if e["extra"]:
            args.append(e["cold"])
            if cls == "CSAPR":
                args.append(rng.choice([90., 45.]))
            args.append("DHARMA")
        elif not e["cold"] or rng.random() < .5:
            if rng.random() < .5:
                kw["supercooled"] = e["cold"]
            else:
                args.append(e["cold"])
    else:
        e["extra"] = rng.random() < .35
        if e["extra"]:
            args.append("DHARMA")
    i, err = attempt(cls, args, kw)
    e["err"] = err
    if i is not None:
        e["obs"] = look(i)
    return i, e


def scribble(rng, i):
    fam, key, kind = rng.choice(SLOTS)
    t = {"mie": i.mie_table, "scat": i.scat_table, "bulk": i.bulk_table}[fam][key]
    names = [n for n in t.data_vars if n not in ("wavelength", "frequency", "vt")]
    n = rng.choice(names)
    v = np.array(t[n].values)
    v = np.full_like(v, 0.) if v.dtype != object else np.zeros(v.shape)
    if rng.random() < .5:
        try:
            t[n].values[...] = v
        except ValueError:
            t[n].values = v
    else:
        t[n] = (t[n].dims, v)
    return dict(op="scribble", err="", slot=fam + "/" + key)


def fmt(rng, v):
    if math.isinf(v):
        return "Infinity"
    return rng.choice(["%.8E", "%.10e", "%.10g"]) % v


def load(rng, scratch):
    kind = rng.choice(sorted(LAY))
    radar = rng.random() < .5
    names = [("frequency" if radar else "wavelength") if n == "beam" else n for n in LAY[kind]]
    n = rng.choice([1, 2, 3, 7])
    val = lambda: 0. if rng.random() < .15 else float("%.8E" % 10 ** rng.uniform(-9, 6))
    rows = [[val() for _ in names] for _ in range(n)]
    if kind.startswith("bulk") and rng.random() < .6:
        rows[rng.randrange(n)][-1] = rng.choice([math.inf, 5.25e204])
    sep = (lambda: " " * rng.choice([1, 2, 5]) + rng.choice(["", "\t"])) if kind == "mie" else (lambda: "," + " " * rng.choice([0, 1, 5]))
    lines = []
    for r in rows:
        s = " " * rng.choice([0, 4])
        for j, v in enumerate(r):
            s += (sep() if j else "") + fmt(rng, v)
        lines.append(s)
    text = "\n".join(lines) + ("\n" if rng.random() < .8 else "")
    p = os.path.join(scratch, "t%d.dat" % rng.randrange(3))
    with open(p, "w") as f:
        f.write(text)
    # what the file says
    sep2 = (lambda s: s.split()) if kind == "mie" else (lambda s: s.split(","))
    rows = [[float(w) for w in sep2(s)] for s in lines]
    e = dict(op="load", kind=kind, radar=radar, cols=[])
    if kind == "mie":
        t, err = call(IO.load_mie_file, p)
    elif kind.startswith("bulk"):
        kw = {"param_type": "mDAD"} if kind == "bulk_mdad" else {} if rng.random() < .5 else {"param_type": "C6"}
        t, err = call(IO.load_bulk_scat_file, p, **kw)
    else:
        kw = {"param_type": "mDAD"} if kind == "mdad" else {} if rng.random() < .5 else {"param_type": "C6"}
        t, err = call(IO.load_scat_file, p, radar, **kw)
    e["err"] = err
    if err:
        return e
    src = {n: [r[j] for r in rows] for j, n in enumerate(names)}
    if kind == "bulk_mdad":
        src["r_e"] = src["D_e"]
    for v in t.data_vars:
        a = t[v].values
        e["cols"].append(dict(col=v, file=[lg(x) for x in src.get(v, [])], got=[lg(x) if isinstance(x, (int, float, np.number)) else NNAN for x in a.tolist()],
                              unit=str(t[v].attrs.get("units", ""))))
    return e


def beam(rng):
    f = [] if rng.random() < .45 else [10 ** rng.uniform(8, 15)]
    w = [] if rng.random() < .45 else [10 ** rng.uniform(-7, 0)]
    kw = {}
    if f:
        kw["frequency"] = rng.choice([lambda: f[0] * 1e-9 * ureg.GHz, lambda: f[0] * 1e-6 * ureg.MHz, lambda: f[0] * ureg.Hz, lambda: f[0] * 1e-3 * ureg.kHz])()
    if w:
        kw["wavelength"] = rng.choice([lambda: w[0] * 1e9 * ureg.nanometer, lambda: w[0] * 1e6 * ureg.micrometer, lambda: w[0] * 1e2 * ureg.centimeter,
                                       lambda: w[0] * ureg.meter])()

    def go():
        try:
            return Instrument(**kw), ""
        except ValueError:
            return None, "ValueError"
    r, err = call(go)
    i, err = (None, err) if err else r
    e = dict(op="beam", err=err, f=[lg(v) for v in f], w=[lg(v) for v in w])
    if i is not None:
        e.update(freq=lg(i.freq), wave=lg(i.wavelength * 1e-6))
    return e, i


def observe(rng, i, scratch, seen):
    T, R = rng.randint(1, 4), rng.randint(1, 4)
    t = np.datetime64("2020-01-01") + np.array(sorted(rng.sample(range(1440), T))) * np.timedelta64(60, "s")
    d = xr.Dataset({"reflectivity": (("time", "range"), np.array([[rng.choice([np.nan, rng.randint(-300, 300) / 8.]) for _ in range(R)] for _ in range(T)]), {"units": "dBZ"}),
                    "lat": ((), 70.5)}, coords={"time": t, "range": ("range", np.arange(R) * 30. + 15.)})
    p = os.path.join(scratch, "obs%d.nc" % len(seen))
    d.to_netcdf(p)
    drop = {"drop_variables": ["lat"]} if rng.random() < .4 else {}
    _, err = call(i.read_arm_netcdf_file, p, **drop)
    seen[id(i)] = (i, d if not drop else d.drop_vars("lat"))
    e = dict(op="observe", err=err)
    if not err:                                          # every instrument holds what was read for it last
        e["same"] = all(j.ds is not None and set(w.data_vars) == set(j.ds.data_vars)
                        and all(np.array_equal(w[n].values, j.ds[n].values, equal_nan=w[n].dtype.kind == "f") for n in w.variables) for j, w in seen.values())
    return e


def session(k, rng):
    scratch = tempfile.mkdtemp(prefix="c34_")
    ev, mine, seen = [], [], {}
    try:
        for _ in range(rng.choice([3, 4, 6])):
            u = rng.random()
            if not mine or u < .35:
                same = rng.choice(mine)[1] if mine and rng.random() < .5 else None
                i, e = build(rng, *(same or (None,)))
                ev.append(e)
                if i is not None:
                    mine.append((i, (e["cls"], e["site"] or None)))
            elif u < .5:
                j = rng.randrange(len(mine))
                e = scribble(rng, mine[j][0])
                ev.append(dict(e, id=j + 1))
            elif u < .65:
                j = rng.randrange(len(mine))
                cold, extra = rng.random() < .5, rng.random() < .4
                e = dict(op="reload", id=j + 1, cold=cold, extra=extra)
                a = (cold, "DHARMA") if extra else (cold,) if not cold or rng.random() < .5 else ()
                _, e["err"] = call(mine[j][0].load_instrument_scat_files, *a)
                if not e["err"]:
                    e["obs"] = look(mine[j][0])
                ev.append(e)
            elif u < .9:
                j = rng.randrange(len(mine))
                ev.append(dict(op="look", id=j + 1, err="", obs=look(mine[j][0])))
            else:
                ev.append(observe(rng, rng.choice(mine)[0], scratch, seen))
        return ("session %d: %s" % (k, [(e["op"], e.get("cls", e.get("slot", ""))) for e in ev]), dict(LN, ev=ev))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def small(k, rng):
    scratch = tempfile.mkdtemp(prefix="c34_")
    try:
        ev = []
        for _ in range(8):
            ev.append(load(rng, scratch) if rng.random() < .6 else beam(rng)[0])
        return ("tables and beams %d" % k, dict(LN, ev=ev))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def physics(item, rng):
    cls, cold = item
    args = [{"KAZR": "nsa", "WACR": "sgp"}[cls]] if CLASSES[cls] == "site" else []
    kw = {} if CLASSES[cls] == "dark" else {"supercooled": cold}
    i, err = attempt(cls, args, kw)
    e = dict(op="physics", err=err, mie=[], sizes=[], bulk=[])
    if i is not None:
        n = np.sqrt(i.eps_liq)
        e.update(wave=lg(i.wavelength * 1e-6), re=lg(n.real), im=lg(abs(n.imag)))
        for s, t in i.mie_table.items():
            D = t["p_diam"].values
            e["sizes"].append([lg(v) for v in D])
            at = sorted(rng.sample(range(5, len(D)), min(len(D) - 5, 200 if vlib.THOROUGH else 60)))   # the first rows are rough
            rows = [dict(d=lg(D[r]), x=lg(t["size_parameter"].values[r]), ext=lg(t["alpha_p"].values[r]), scat=lg(t["scat_p"].values[r]), back=lg(t["beta_p"].values[r]),
                         qe=lg(t["ext_eff"].values[r]), qs=lg(t["scat_eff"].values[r]), qb=lg(t["backscat_eff"].values[r])) for r in at]
            e["mie"].append(dict(lam=lg(t["wavelength"].values[0] * 1e-6), liquid=s in ("cl", "pl"), re=lg(t["compre_real"].values[0]),
                                 im=lg(abs(t["compre_im"].values[0])), rows=rows))
        for s in ("E3_ice", "CESM_ice"):
            e["sizes"].append([lg(v) for v in i.scat_table[s]["p_diam"].values])
        for s in ("E3_ice", "E3_liq", "mie_ice_E3_PSD", "CESM_ice", "CESM_liq", "mie_ice_CESM_PSD"):
            t = i.bulk_table[s]
            q, w = t["Q_ext"].values.ravel(), t["Q_scat"].values.ravel()
            at = sorted(rng.sample(range(q.size), min(q.size, 60)))
            e["bulk"].append([[lg(q[r]), lg(w[r])] for r in at])
            if "r_e" in t:
                e["sizes"].append([lg(v) for v in t["r_e"].values])
    return ("tables of %s for %s liquid" % (cls, "supercooled" if cold else "warm"), dict(LN, ev=[e]))


def job(item, rng):
    what, x = item
    return {"session": session, "small": small, "physics": physics}[what](x, rng)


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 34)
    inv = ["Right", "Metres", "Own", "OneTable"]
    base = dict(Insts='{"radar", "lidar"}' if not vlib.THOROUGH else '{"radar", "radar2", "lidar"}', Steps=4)
    c.model("InstrumentMC", dict(base, Bug='"none"'), inv, deadlock=False, workers=4)
    for b, w in (("positional", "Right"), ("cached", "Own"), ("cached", "Metres"), ("twice", "Metres"), ("stale", "Right")):
        c.model("InstrumentMC", dict(base, Insts='{"radar", "lidar"}', Bug='"%s"' % b), inv, expect=w, deadlock=False)
    n = (360, 240) if vlib.THOROUGH else (60, 48)
    items = [("session", k) for k in range(n[0])] + [("small", k) for k in range(n[1])]
    items += [("physics", (cl, cold)) for cl in ("CSAPR", "XSACR", "KAZR", "WACR", "NEXRAD", "CEIL", "Ten64nm") for cold in (True, False)]
    items += [("physics", (cl, True)) for cl in ("RL", "HSRL")]
    traces = vlib.pmap(job, items)
    for _, t in traces:
        for e in t["ev"]:
            c.info["op_" + e["op"]] = c.info.get("op_" + e["op"], 0) + 1
    corrupt = []

    def spoil(clause, sel, do, n=3, alone=True):
        ok = [(t, j) for _, t in traces for j, e in enumerate(t["ev"]) if not e["err"] and sel(e)]
        for t, j in rng.sample(ok, min(n, len(ok))):
            t = copy.deepcopy(t)
            t["ev"] = [t["ev"][j]] if alone else t["ev"][:j + 1]
            do(t["ev"][-1])
            corrupt.append((clause, t))

    def a_col(e, f):
        x = rng.choice([x for x in e["cols"] if x["got"] and f(x)])
        x["got"][0] = 777

    built = lambda e: e["op"] == "build"
    lidar = lambda e: built(e) and e["obs"]["kind"] == "lidar"
    spoil("right_table", built, lambda e: e["obs"]["tables"][rng.randrange(16)].update(files=["MieX_liq"]))
    spoil("tables_complete", built, lambda e: e["obs"]["tables"].pop(rng.randrange(16)))
    spoil("column_in_its_unit", built, lambda e: rng.choice(e["obs"]["cols"]).update(got=123))
    spoil("unit_named", built, lambda e: [x.update(named="um") for x in e["obs"]["cols"] if x["col"] == "V"])
    spoil("fall_speeds_filled", built, lambda e: e["obs"]["vt"].update(rest=5))
    spoil("what_it_is", built, lambda e: e["obs"].update(str="XYZ"))
    spoil("beam", built, lambda e: e["obs"].update(wave=e["obs"]["wave"] + 900))
    spoil("water_factor", built, lambda e: e["obs"].update(kw=91))
    spoil("extinction", built, lambda e: e["obs"].update(sfc=not e["obs"]["sfc"]))
    spoil("sensitivity", built, lambda e: e["obs"].update(zmin=-4321))
    spoil("thresholds", lambda e: built(e) and e["obs"]["thr"], lambda e: rng.choice(e["obs"]["thr"]).__setitem__(0, 2 * 10 ** 9))
    spoil("right_table", lambda e: e["op"] == "reload" and e["obs"]["str"] not in ("RL", "HSRL"), lambda e: e.update(cold=not e["cold"]), alone=False)
    spoil("right_table", lambda e: e["op"] == "look", lambda e: [x.update(files=[]) for x in e["obs"]["tables"]], alone=False)
    load_ = lambda e: e["op"] == "load"
    spoil("columns_complete", load_, lambda e: e["cols"].pop())
    spoil("rows_kept", load_, lambda e: rng.choice(e["cols"])["got"].pop())
    spoil("column_in_its_unit", load_, lambda e: a_col(e, lambda x: True))
    spoil("unit_named", load_, lambda e: rng.choice(e["cols"]).update(unit="furlongs"))
    spoil("refuses_neither", lambda e: e["op"] == "beam", lambda e: e.update(err="ValueError"))
    spoil("beam", lambda e: e["op"] == "beam", lambda e: e.update(freq=e["freq"] + 5, wave=e["wave"] + 5))
    spoil("observation_kept", lambda e: e["op"] == "observe", lambda e: e.update(same=False), alone=False)
    phy = lambda e: e["op"] == "physics"
    spoil("wavelength_of_instrument", phy, lambda e: e.update(wave=e["wave"] + 200000))
    spoil("index_of_liquid", phy, lambda e: e.update(im=e["im"] + 90000))
    spoil("sizes_increase", phy, lambda e: rng.choice(e["sizes"]).reverse())
    spoil("size_parameter", phy, lambda e: rng.choice(rng.choice(e["mie"])["rows"]).update(x=0))
    spoil("efficiency_times_area", phy, lambda e: [r.update(ext=r["ext"] + 90000) for m in e["mie"] for r in m["rows"]])
    spoil("extinction_covers_scattering", phy, lambda e: [r.update(scat=r["ext"] + 9000) for m in e["mie"] for r in m["rows"]])
    spoil("extinction_covers_scattering", phy, lambda e: rng.choice(e["bulk"])[0].__setitem__(0, NNAN))
    spoil("call_completes", lambda e: True, lambda e: e.update(err="KeyError"), alone=False)
    refused = [(t, j) for _, t in traces for j, e in enumerate(t["ev"]) if e["op"] == "build" and e["err"] == "ValueError"]
    for t, j in refused[:2]:
        t = copy.deepcopy(t)
        t["ev"] = [dict(t["ev"][j], err="")]
        corrupt.append(("refuses_unknown_site", t))
    c.validate("InstrumentTrace", traces, corrupt, workers=8)
