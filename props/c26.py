"""C26 signals respond to mass and number (spec/Scale*.tla)."""
import copy
import math
import random

from radar import *

CONTENT = ("strat_q_", "conv_q_", "strat_n_", "conv_n_", "n_", "in_cld_N")


def scaled(m, f, which):
    m = clone(m)
    for n in list(m.ds.data_vars):
        if not str(n).startswith(CONTENT):
            continue
        if which == "all" or n.endswith("_" + which) or (n == "in_cld_Ni" and which == "ci"):
            m.ds[n] = m.ds[n] * f
    return m


def simulate(m, inst, route, sfc, mie, hyd, kw):
    if inst.instrument_class.lower() == "lidar":
        for c in clouds(m):
            m = moments(m, inst, c, route, sfc, mie_for_ice=mie, hyd_types=hyd, **kw)
        m = lm.calc_total_alpha_beta(m, OD_from_sfc=sfc)
        return lm.calc_LDR_and_ext(m, OD_from_sfc=sfc, hyd_types=hyd)
    m = sim_radar(m, inst, route, sfc, mie, hyd, **kw)
    return rm.calc_total_reflectivity(at.calc_radar_Ze_min(inst, m), detect_mask=True)


RADARS = ["KAZR", "WACR", "NEXRAD", "BASTA", "MWACR", "CSAPR", "XSACR"]


def job(item, rng):
    (route, fam, mie, sfc), kind, rep = item
    N, T, H = rng.choice([1, 2]), 2, rng.choice([3, 4])
    proc = rng.random() < .6
    f = rng.choice([1.5, 2., 7., 40.])
    inst = instrument(rng.choice(["HSRL", "CEIL", "RL"]) if kind == "lidar" else
                      rng.choice(["KAZR", "WACR"] if route != "empirical" else RADARS))
    if route == "empirical" and kind == "radar" and rng.random() < .5:      # a radar of its own, anywhere in its band
        inst = copy.copy(inst)
        inst.freq = rng.choice([2.2, 2.9, 3.8, 27.5, 33.1, 39.5, 76., 96.2, 109.]) * 1e9
        inst.wavelength = 299792458. / inst.freq * 1e6
    d = "%s %s mie=%s sfc=%s conv=%s %s x%s" % (route, fam, mie, sfc, proc, inst.instrument_str, f)
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=0.6), N, route != "micro", rng.randrange(10**6))
    ev = []
    if err:
        return d, {"which": "all", "lf": 0, "ev": [dict(k="prop", err=err, a=0, b=0, c="")]}
    pre = rng.choice([1, 1, 1, 1e-3, 1e-8])          # thin clouds count as thick ones do
    if pre != 1:
        m = scaled(m, pre, "all")
        d += " from %g" % pre
    hyd = list(m.hyd_types)
    if rng.random() < .3:
        hyd = rng.sample(hyd, rng.randint(1, len(hyd)))
    which = "all" if rng.random() < .5 or fam == "P3" else rng.choice(hyd)
    d += " of %s in %s" % (which, hyd)
    kw = {}
    if route == "micro":
        # the number of cloud droplets may set the width of their sizes
        kw["calc_dispersion"] = False
        if kind == "radar":
            kw["calc_spectral_width"] = True
    (a, e1), (b, e2) = (call(simulate, clone(x), inst, route, sfc, mie, hyd, kw, timeout=120)
                        for x in (m, scaled(m, f, which)))
    if e1 or e2:
        return d, {"which": which, "lf": 0, "ev": [dict(k="prop", err=e1 or e2, a=0, b=0, c="")]}

    def put(k, name, c, conv):
        x, y = A(a, name), A(b, name)
        for i in np.ndindex(x.shape):
            p, q = conv(x[i]), conv(y[i])
            if p in (NNAN, NZERO) and p == q and rng.random() < .8:
                continue
            ev.append(dict(k=k, err="", a=p, b=q, c=c, n=name))
    opt = lambda t: lg(-math.log(t)) if 1e-250 < t < 1 - 1e-7 else NZERO
    for cl in clouds(m):
        tot = "prop" if which == "all" else "grow"
        if kind == "lidar":
            for fld in ("alpha_p", "beta_p", "OD"):
                if route == "empirical":
                    continue
                for x in hyd:
                    put("prop", "sub_col_%s_%s_%s" % (fld, x, cl), x, lg)
                put(tot, "sub_col_%s_tot_%s" % (fld, cl), "all", lg)
        else:
            if route != "empirical":
                for x in hyd:
                    put("db", "sub_col_Ze_%s_%s" % (x, cl), x, dbf)
                put("db" if which == "all" else "grow", "sub_col_Ze_tot_" + cl, "all", dbf)
                if which == "all":
                    x, y = A(a, "hyd_ext_" + cl), A(b, "hyd_ext_" + cl)
                    for i in np.ndindex(x.shape):
                        if 1e-250 < y[i] < 1 and x[i] < 1 - 1e-9:
                            ev.append(dict(k="prop", err="", a=lg(-math.log(x[i])), b=lg(-math.log(y[i])), c="all", n="loss"))
            if route == "micro" and cl == "strat":
                for fld in ("Vd", "sigma_d"):
                    for x in hyd:
                        put("same", "sub_col_%s_%s_strat" % (fld, x), x, lambda v: fx(v, 1e-6))
                    if which == "all":
                        put("same", "sub_col_%s_tot_strat" % fld, "", lambda v: fx(v, 1e-6))
    if kind == "lidar":
        if route != "empirical":
            for fld in ("alpha_p", "beta_p", "OD"):
                put("prop" if which == "all" else "grow", "sub_col_%s_tot" % fld, "all", lg)
            if which == "all":
                for x in ["strat", "tot"] + (["conv"] if m.process_conv else []):
                    put("same", "sub_col_LDR_" + x, "", lambda v: fx(v, 1e-6))
    elif route != "empirical":
        put("db" if which == "all" else "grow", "sub_col_Ze_tot", "all", dbf)
    if route == "empirical":
        laws(ev, b, inst, hyd, kind)
    return d, {"which": which, "lf": lg(f), "ev": ev}


def laws(ev, m, inst, hyd, kind):
    """Empirical laws, from the water content of the cells."""
    R = inst.R_d
    p, tk = m.ds[m.p_field].values * 100, m.ds[m.T_field].values
    band = "S" if 2e9 <= inst.freq < 4e9 else "W" if 75e9 <= inst.freq < 110e9 else "K"
    for cl in clouds(m):
        for x in hyd:
            wc = A(m, "%s_q_subcolumns_%s" % (cl, x)) * p / (R * tk)            # kg m-3
            re = A(m, (m.conv_re_fields if cl == "conv" else m.strat_re_fields)[x])
            F = {n: A(m, "sub_col_%s_%s_%s" % (n, x, cl)) for n in (("Ze",) if kind == "radar" else ("alpha_p", "beta_p"))}
            for i in np.ndindex(wc.shape):
                t = tk[i[1:]] - 273.15
                e = dict(err="", a=0, c=x)
                if kind == "radar":
                    e.update(b=dbf(F["Ze"][i]))
                    if x in ("cl", "pl"):
                        e.update(k="zl" if x == "cl" else "zr", w=lg(wc[i] * 1e3))
                    else:
                        e.update(k="zi", w=fx(math.log10(wc[i] * 1e3), 1e-6) if wc[i] > 0 else NZERO, t=fx(t, .01),
                                 band=band)
                    ev.append(e)
                    continue
                al = F["alpha_p"][i]
                if x in ("cl", "pl"):
                    ev.append(dict(e, k="al", b=lg(al), w=lg(wc[i]), lr=lg(m.Rho_hyd[x].magnitude * re[i[1:]] * 1e-6)))
                else:
                    ev.append(dict(e, k="ai", b=lg(al), w=lg(wc[i] * 1e3), la=lg(.00532 * (t + 90) ** 2.55),
                                   be=fx(1.31 * math.exp(.0047 * t), 1e-6)))
                    ev.append(dict(e, k="size", w=lg(wc[i]), s=lg(1.5 * wc[i] / 917 / al) if al > 0 and wc[i] > 0 else 0, b=0))
                ev.append(dict(e, k="ab", a=lg(al), b=lg(F["beta_p"][i]), lr=lg(m.lidar_ratio[x].magnitude)))


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 26)
    for x in ["HSRL", "CEIL", "RL"] + RADARS:
        instrument(x)
    inv = ["Proportional", "VelocityKept", "EachClass", "Grows"]
    k = dict(MaxS=3 if vlib.THOROUGH else 2, MaxN=3)
    c.model("ScaleMC", dict(k, Bug='"none"'), inv, deadlock=False, workers=8)
    for b, w in (("mass", "Proportional"), ("first", "EachClass"), ("floor", "Proportional"), ("sum", "VelocityKept")):
        c.model("ScaleMC", dict(MaxS=2, MaxN=2, Bug='"%s"' % b), [w], expect=w, deadlock=False, workers=4)
    its = [(cb, kd, i) for i in range(14 if vlib.THOROUGH else 2) for cb in combos(rng) for kd in ("lidar", "radar")]
    traces = vlib.pmap(job, its)
    c.info["pairs"] = sum(len(t["ev"]) for _, t in traces)
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []
    num = lambda e: abs(e["b"]) < 1.8e9
    for kk, cond, cl, dlt in (("prop", num, None, 400), ("db", num, None, 300), ("same", num, "intensive_moments_unchanged", 300),
                              ("grow", lambda e: num(e) and num(e) and abs(e["a"]) < 1.8e9, "never_less_with_more", None),
                              ("zl", num, "cloud_water_power_law", 300), ("zr", num, "rain_power_law", 300),
                              ("zi", num, "ice_power_law", 9000), ("al", num, "liquid_extinction_law", 300),
                              ("ai", num, "ice_extinction_law", 30000), ("ab", num, "backscatter_by_lidar_ratio", 300)):
        ok = [(t, e) for t in good for e in t["ev"] if e["k"] == kk and cond(e)]
        if not ok:
            continue
        for _ in range(2):
            t, e = rng.choice(ok)
            e = dict(e)
            e["b"] = e["a"] - 500 if dlt is None else e["b"] + dlt
            corrupt.append((cl, dict(t, ev=[e])))
    c.validate("ScaleTrace", traces, corrupt, workers=8)
