"""C35 scattering by spheres, refractive indices, shapes of drops (spec/ScatterMC.tla, ScatterTrace.tla)."""
import copy
import random
import re

import numpy as np
import xarray as xr

import vlib
from vlib import call, fx, lg, NNAN
from emcfix import quiet
from emc2 import scattering as SC

C = 299792458.


def word(ds, n):
    s = (str(ds[n].attrs.get("long_name", "")) + " " + str(ds[n].attrs.get("standard_name", ""))).lower()
    back, ext = "back" in s, "ext" in s
    return "both" if back and ext else "back" if back else "ext" if ext else "scat" if "scat" in s else ""


def given(rng, d):
    """The list of sizes in one of the ways arrays come."""
    d = np.array(d, dtype=float)
    how = rng.choice(["array", "array", "xarray", "named", "strided"])
    if how == "xarray":
        return xr.DataArray(d, dims="p_diam")
    if how == "named":
        return xr.DataArray(d, dims="n", coords={"n": np.arange(d.size)[::-1]}, attrs={"units": "microns"})
    if how == "strided":
        return np.repeat(d, 2)[::2]
    return d


def spheres(rng, beams):
    b = rng.choice(beams)
    lam, t, p, rho, what = b["lam"], b["t"], b["p"], b["rho"], b["what"]
    n = rng.choice([1, 1, 2, 3, 5, 8])

    def size():
        u = rng.random()
        x = 10 ** rng.uniform(-4, -2.3) if u < .35 else 10 ** rng.uniform(2.02, 2.5) if u < .45 else 10 ** rng.uniform(-2.3, 1.5)
        return float("%.6g" % (x * lam * 1e4 / np.pi))
    known = b["seen"]
    d = [rng.choice(known) if known and rng.random() < .5 else size() for _ in range(n)]
    if rng.random() < .3:
        d.append(rng.choice(d))
    u = rng.random()
    d = sorted(d) if u < .4 else sorted(d, reverse=True) if u < .6 else d
    known += d
    arg = given(rng, d)
    before = np.array(arg)
    kw = {}
    if t != 0 or rng.random() < .5:
        kw["temperature"] = t
    if p != 1013. or rng.random() < .5:
        kw["pressure"] = p
    if what == "ice" and (rho != .5 or rng.random() < .5):
        kw["rho_d"] = rho
    if list(kw) == ["temperature", "pressure", "rho_d"][:len(kw)] and rng.random() < .5:
        r, err = call(SC.scat_properties_water if what == "water" else SC.scat_properties_ice, arg, lam, *kw.values())
    else:
        r, err = call(SC.scat_properties_water if what == "water" else SC.scat_properties_ice, arg, lam, **kw)
    e = dict(op="spheres", err=err, what=what, beam=b["id"], asked=[lg(v * 1e-6) for v in d], lam=lg(lam * 1e-2))
    if err:
        return e
    m = SC.calc_microwave_ref_index(lam, t) if what == "water" else SC.calc_microwave_ref_index_ice(lam, t, rho)
    K = (m ** 2 - 1) / (m ** 2 + 2)
    e.update(kept=bool(np.array_equal(np.array(arg), before)), k2=lg(abs(K) ** 2), imk=lg(abs(K.imag)),
             mre=lg(m.real / 1.0003), mim=lg(abs(m.imag) / 1.0003), rows=[], cols=[])
    v = {n: np.asarray(r[n].values, dtype=float).ravel() for n in r.variables}
    for j in range(min(w.size for w in v.values())):
        q = v["ext_eff"][j]
        sh = lambda n: fx(v[n][j] / q, 1e-6) if q > 0 else NNAN
        e["rows"].append(dict(d=lg(v["p_diam"][j]), lam=lg(v["wavelength"][j] * 1e-6), x=lg(v["size_parameter"][j]), mre=lg(v["compre_real"][j]),
                              mim=lg(abs(v["compre_im"][j])), qext=lg(q), qsca=lg(v["scat_eff"][j]), qabs=lg(v["qabs"][j]), qback=lg(v["backscat_eff"][j]),
                              ratio=lg(v["qratio"][j]), g=fx(v["g"][j], 1e-6), alpha=lg(v["alpha_p"][j]), scat=lg(v["scat_p"][j]), beta=lg(v["beta_p"][j]),
                              share=dict(ext=sh("ext_eff"), sca=sh("scat_eff"), abs=sh("qabs"), pr=sh("qpr"))))
    for n in ("alpha_p", "beta_p", "scat_p", "ext_eff", "backscat_eff", "scat_eff", "p_diam", "wavelength", "size_parameter", "compre_real", "compre_im"):
        e["cols"].append(dict(col=n, unit=str(r[n].attrs.get("units", "")), word=word(r, n)))
    return e


def index(rng):
    what = rng.choice(["water", "water", "ice"])
    t = rng.randint(-20, 40)
    f = rng.choice([rng.randint(100, 1000), rng.randint(1000, 10000), 3486, 9504, 971, 625])
    lam = C / (f * 1e7) * 1e2
    e = dict(op="index", what=what, t=t, f=f, rho=rng.randint(5, 92))
    if what == "water":
        m, err = call(SC.calc_microwave_ref_index, lam, *([float(t)] if t or rng.random() < .5 else []))
    else:
        rho = e["rho"] / 100
        if rng.random() < .15:
            e["rho"] = 50
            m, err = call(SC.calc_microwave_ref_index_ice, lam, float(t))
        else:
            m, err = call(SC.calc_microwave_ref_index_ice, lam, float(t), rho)
    e["err"] = err
    if not err:
        eps = complex(m) ** 2
        e.update(re=fx(eps.real, 1e-3), im=fx(abs(eps.imag), 1e-3), im8=fx(abs(eps.imag), 1e-8) if abs(eps.imag) < 10 else NNAN)
    return e


def drops(rng):
    d = [rng.randint(0, 80) for _ in range(rng.randint(1, 6))]
    one = len(d) == 1 and rng.random() < .6
    x = d[0] / 10. if one else np.array(d) / 10.
    r, err = call(SC.brandes, x)
    return dict(op="drops", err=err, d=d, got=[] if err else [fx(float(v), 1e-6) for v in np.atleast_1d(r)])


def job(k, rng):
    beams = []
    for b in range(rng.choice([1, 2, 3])):
        what = rng.choice(["water", "ice"])
        f = rng.choice([3486, 9504, 971, 625, 300, rng.randint(300, 10000)])
        beams.append(dict(id=b, what=what, lam=C / (f * 1e7) * 1e2, t=rng.choice([0., float(rng.randint(-15, 25))]), p=rng.choice([1013., float(rng.randint(300, 1030))]),
                          rho=rng.choice([.5, rng.randint(10, 92) / 100.]), seen=[]))
    if len(beams) > 1 and rng.random() < .6:               # the same substance in another beam, the same sizes
        beams[1] = dict(beams[0], id=1, seen=beams[0]["seen"], **rng.choice([dict(lam=beams[0]["lam"] * 1.5), dict(t=beams[0]["t"] + 10.),
                                                                            dict(what="ice" if beams[0]["what"] == "water" else "water")]))
    ev = []
    for _ in range(rng.choice([3, 4, 6])):
        u = rng.random()
        ev.append(spheres(rng, beams) if u < .65 else index(rng) if u < .9 else drops(rng))
    return ("requests %d: %s" % (k, [e["op"] for e in ev]), dict(ev=ev))


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 35)
    inv = ["SizesAsAsked", "Alone", "Sections", "ByItself"]
    base = dict(Sizes="{1, 2, 3, 4}" if vlib.THOROUGH else "{1, 2, 3}", Beams="{1, 2}", MaxLen=3, Steps=2)
    c.model("ScatterMC", dict(base, Bug='"none"'), inv, deadlock=False, workers=8)
    small = dict(base, Sizes="{1, 2, 3}")
    for b, w in (("spread", "SizesAsAsked"), ("sorted", "SizesAsAsked"), ("sorted_under_old_names", "ByItself"), ("memo", "Alone"), ("area_of_asked", "Sections")):
        c.model("ScatterMC", dict(small, Bug='"%s"' % b), inv, expect=w, deadlock=False)
    traces = vlib.pmap(job, range(12000 if vlib.THOROUGH else 160))
    for _, t in traces:
        for e in t["ev"]:
            c.info["op_" + e["op"]] = c.info.get("op_" + e["op"], 0) + 1
            c.info["spheres"] = c.info.get("spheres", 0) + len(e.get("asked", []))
    corrupt = []

    def spoil(clause, sel, do, n=3, upto=False):
        ok = [(t, j) for _, t in traces for j, e in enumerate(t["ev"]) if not e["err"] and sel(e)]
        for t, j in rng.sample(ok, min(n, len(ok))):
            t = copy.deepcopy(t)
            t["ev"] = t["ev"][:j + 1] if upto else [t["ev"][j]]
            do(t["ev"][-1])
            corrupt.append((clause, t))

    sp = lambda e: e["op"] == "spheres" and e["rows"]
    row = lambda e: rng.choice(e["rows"])

    def small_one(e):
        return sp(e) and any(w["d"] + 1144730 - e["lam"] < -4900000 for w in e["rows"])

    def shift(n, by):
        return lambda e: [w.update({n: w[n] + by}) for w in e["rows"]]

    spoil("sizes_as_asked", sp, lambda e: e["rows"].pop())
    spoil("sizes_as_asked", sp, lambda e: row(e).update(d=-9000000))
    spoil("beam_as_asked", sp, lambda e: row(e).update(lam=-900000))
    spoil("size_parameter", sp, shift("x", -6907755))
    spoil("index_of_sphere", sp, shift("mre", 400))
    for n in ("alpha", "scat", "beta"):
        spoil("efficiency_times_area", sp, shift(n, 300), 2)
    spoil("values", sp, lambda e: row(e).update(qback=NNAN))
    spoil("extinction_is_both", sp, lambda e: row(e)["share"].update(abs=777777))
    spoil("backscatter_ratio", sp, shift("ratio", 500))
    spoil("asymmetry", sp, lambda e: row(e).update(g=1000300))
    spoil("radiation_pressure", sp, lambda e: row(e)["share"].update(pr=-5000))
    for n in ("qsca", "qback", "qabs"):
        spoil("small_spheres", small_one, shift(n, 30000), 2)
    spoil("large_spheres", lambda e: sp(e) and any(w["d"] + 1144730 - e["lam"] > 4600000 for w in e["rows"]), shift("qext", 300000))
    spoil("names_and_units", sp, lambda e: rng.choice(e["cols"][:6]).update(word="other"))
    spoil("names_and_units", sp, lambda e: rng.choice(e["cols"]).update(unit="microns^2"))
    spoil("argument_unchanged", sp, lambda e: e.update(kept=False))
    ok = []
    for _, t in traces:
        for j, e in enumerate(t["ev"]):
            if not e["err"] and sp(e):
                before = {d for o in t["ev"][:j] if not o["err"] and sp(o) and o["beam"] == e["beam"] for d in o["asked"]}
                ok += [(t, j, r) for r, d in enumerate(e["asked"]) if d in before and r < len(e["rows"])]
    for t, j, r in rng.sample(ok, min(4, len(ok))):
        t = copy.deepcopy(t)
        t["ev"] = t["ev"][:j + 1]
        t["ev"][-1]["rows"][r]["qext"] += 20
        corrupt.append(("each_size_by_itself", t))
    spoil("permittivity_of_water", lambda e: e["op"] == "index" and e["what"] == "water", lambda e: e.update(re=e["re"] + 900))
    spoil("permittivity_of_water", lambda e: e["op"] == "index" and e["what"] == "water", lambda e: e.update(im=e["im"] + 1300))
    spoil("permittivity_of_ice", lambda e: e["op"] == "index" and e["what"] == "ice", lambda e: e.update(re=e["re"] + 9))
    spoil("axis_ratio", lambda e: e["op"] == "drops", lambda e: e["got"].__setitem__(0, e["got"][0] + 100))
    spoil("call_completes", lambda e: True, lambda e: e.update(err="KeyError"))
    c.validate("ScatterTrace", traces, corrupt, workers=8)
