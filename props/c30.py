"""C30 signals are what the scattering tables and published relations say (spec/Tables*.tla)."""
import math
import random

from scipy.interpolate import LinearNDInterpolator, RegularGridInterpolator

from radar import *
from emc2.simulator.psd import calc_and_set_psd_params, calc_velocity_nssl

GROUPS, LIMIT, CLIP = 24, 5, 20000000
ICE_P3 = ("Fr", "rho_r", "qi_norm")


def mag(v):
    return float(getattr(v, "magnitude", v))


def groups(t):
    return [float(g.sum()) for g in np.array_split(t, GROUPS)]


def terms(x, u):
    return [int(max(-CLIP, min(CLIP, round(v / u)))) if math.isfinite(v) else CLIP for v in x]


def singles(inst, m, i):
    """Single particle tables at cell i = (time, height): name -> (diameters, backscatter, extinction)."""
    out = {"mie:" + x: tuple(t[v].values for v in ("p_diam", "beta_p", "alpha_p")) for x, t in inst.mie_table.items()}
    for name, d in (("CESM_ice", "p_diam"), ("E3_ice", "p_diam_eq_V")):
        out[name] = tuple(inst.scat_table[name][v].values for v in (d, "beta_p", "alpha_p"))
    if m.rad_scheme_family == "P3":
        lut = inst.scat_table["p3_ice"]
        a = [lut[n].values for n in ("Fr", "rho_r")]
        at = np.array([[m.ds[n].values[i] for n in ICE_P3[:2]]])
        for name, suf in (("p3", ""), ("p3_eq", "_eq_V")):
            out[name] = (lut["p_diam"].values,) + tuple(
                RegularGridInterpolator(a, lut[v + suf].transpose("Fr", "rho_r", "d").values, bounds_error=False)(at)[0]
                for v in ("beta_p", "alpha_p"))
    return out


def fall(m, x, i, D, inst):
    """Fall speed of the particles of a class (downward negative)."""
    if m.mcphys_scheme == "nssl":
        dens = m.ds[m.variable_density[x]].values[i] if isinstance(m.Rho_hyd[x], str) else mag(m.Rho_hyd[x])
        v = calc_velocity_nssl(D, dens, x)
    elif m.mcphys_scheme == "P3" and x == "ci":
        lut = instrument("KAZR").scat_table["p3_ice"]
        a = [lut[n].values for n in ("Fr", "rho_r", "p_diam")]
        f, r = (m.ds[n].values[i] for n in ICE_P3[:2])
        v = RegularGridInterpolator(a, lut["vt"].transpose("Fr", "rho_r", "d").values, bounds_error=False)(
            np.stack([np.full(D.size, f), np.full(D.size, r), D], axis=1))
    else:
        v = mag(m.vel_param_a[x]) * D ** mag(m.vel_param_b[x])
    ref = m.Vd_rhoa_scaling_ref.get(x)
    air = m.ds["p_3d"].values[i] * 100 / (287.0586 * m.ds["t"].values[i])
    return -v * (1. if ref is None else (ref / air) ** .54)


def sums(D, f):
    w = np.zeros(D.size)
    w[:-1] += np.diff(D) / 2
    w[1:] += np.diff(D) / 2
    return w * f


def pick(rng, mask, n=LIMIT):
    c = [tuple(int(v) for v in i) for i in np.argwhere(mask)]
    return rng.sample(c, min(n, len(c)))


def micro(rng, m, inst, r, hyd, mie, hyb):
    fam, lidar = m.rad_scheme_family, inst.instrument_class.lower() == "lidar"
    const = inst.wavelength ** 4 / (inst.K_w * math.pi ** 5) * 1e-6 if not lidar else 1.
    ev, psd = [], {}
    for x in hyd:
        p = calc_and_set_psd_params(clone(m), x)
        psd[x] = {v: p[v].transpose(*[d for d in ORDER if d in p[v].dims]).values for v in ("N_0", "lambda", "mu")}
    base = dict(op="micro", err="", fam=fam, mie=int(mie), hyb=hyb)

    def size(x, i, D):
        j = i if psd[x]["N_0"].ndim == 3 else i[1:]
        n0, lam, mu = (psd[x][v][j] for v in ("N_0", "lambda", "mu"))
        return n0 * D ** mu * np.exp(-lam * D)

    def want(q, x, i, s, cand, tol=1000):
        ok = [v for v in cand.values() if np.all(np.isfinite(v))]
        own = max([abs(s)] if math.isfinite(s) and s else [max([abs(sum(v)) for v in ok] or [0])])
        u = own / 1e7 if own > 0 else 1.
        if not lidar and q == "back" and math.isnan(s):
            s = 0.
        if not lidar and q != "back" and own == 0:              # (no backscatter at all, no speed)
            return
        ev.append(dict(base, q=q, x=x, s=fx(s, u), tol=tol,
                       cand={n: terms(v, u) for n, v in cand.items()}, at=[int(v) for v in i]))

    key = None
    for x in hyd:
        on = (A(m, "strat_frac_subcolumns_" + x) == 1) & (A(m, "strat_q_subcolumns_" + x) > 0) & \
            (A(m, "strat_n_subcolumns_" + x) > 0)
        back = A(r, "sub_col_beta_p_%s_strat" % x) if lidar else lin(A(r, "sub_col_Ze_%s_strat" % x)) / const
        for i in pick(rng, on):
            T = {n: (D, sums(D, b * size(x, i, D)), sums(D, a * size(x, i, D)))
                 for n, (D, b, a) in singles(inst, m, i[1:]).items()}
            want("back", x, i, float(back[i]), {n: groups(v[1]) for n, v in T.items()})
            if lidar:
                want("ext", x, i, float(A(r, "sub_col_alpha_p_%s_strat" % x)[i]), {n: groups(v[2]) for n, v in T.items()})
                continue
            vel, wid = {}, {}
            for n, (D, b, _) in T.items():
                v = fall(m, x, i[1:], D, inst)
                vel[n] = groups(b * v / b.sum())
                wid[n] = groups(b * (v - sum(vel[n])) ** 2 / b.sum())
            want("vel", x, i, float(A(r, "sub_col_Vd_%s_strat" % x)[i]), vel)
            want("width", x, i, float(A(r, "sub_col_sigma_d_%s_strat" % x)[i]) ** 2, wid, 20000)
    return ev


def bulk(rng, m, inst, r, cl, hyd, mie, hyb):
    fam, lidar = m.rad_scheme_family, inst.instrument_class.lower() == "lidar"
    const = inst.wavelength ** 4 / (inst.K_w * math.pi ** 5) * 1e-6 if not lidar else 1.
    p, z = m.ds["p_3d"].values * 100., m.ds["z"].values
    ev = []
    rhoi = mag(inst.rho_i)
    p3 = None
    if fam == "P3":
        lut = inst.scat_table["p3_ice"]
        ax = [lut[n].values for n in ("Fr", "rho_r", "q_norm")]
        p3 = lambda v, at: float(RegularGridInterpolator(ax, lut[v].transpose("Fr", "rho_r", "q_norm").values)(at)[0])
    for x in hyd:
        q, f = A(m, "%s_q_subcolumns_%s" % (cl, x)), A(m, "%s_frac_subcolumns_%s" % (cl, x))
        re_ = m.ds[(m.conv_re_fields if cl == "conv" else m.strat_re_fields)[x]].values
        back = A(r, "sub_col_beta_p_%s_%s" % (x, cl)) if lidar else lin(A(r, "sub_col_Ze_%s_%s" % (x, cl))) / const
        for i in pick(rng, (f == 1) & (q > 0)):
            t, k = i[1:]
            e = dict(op="bulk", err="", fam=fam, x=x, mie=int(mie), hyb=hyb, k=k + 1, lq=lg(q[i]), lg=lg(mag(inst.g)),
                     dps=lgs(np.abs(np.diff(p[t]))), dzs=lgs(np.diff(z[t])), lre=0, lfi=0, a={}, tol=60, at=list(i))
            ice = x not in ("cl", "pl")
            at = None
            if ice and fam == "P3":
                at = np.array([[m.ds[n].values[t, k] for n in ICE_P3]])
                if not np.all(np.isfinite(at)):
                    continue
            fac, raw = 1., float(re_[t, k])
            if ice:
                dens = m.ds[m.variable_density[x]].values[t, k] if isinstance(m.Rho_hyd[x], str) else mag(m.Rho_hyd[x])
                if fam == "P3":
                    raw = p3("ri_eff", at) * 1e6
                    fac = p3("rho_m_weight", at) / rhoi if m.fluffy is not None else 1.
                elif m.fluffy is not None:
                    fl, ra = mag(m.fluffy[x]), dens / rhoi
                    fac = fl * ra + (1 - fl) * ra ** (1 / 3)
                    ev.append(dict(op="fluff", err="", fl=fx(fl, 1e-3), r=fx(ra, 1e-6), c=fx(ra ** (1 / 3), 1e-6),
                                   fi=fx(fac, 1e-6), lr=lg(ra), lc=lg(ra ** (1 / 3))))
            e.update(lrho=lg(rhoi if ice else mag(m.Rho_hyd[x])), lre=lg(raw), lfi=lg(fac))
            if at is not None:
                ni = float(m.ds["in_cld_Ni"].values[t, k])
                e["a"] = {v: lg(p3(v, at) * ni) for v in ("A_tot_norm", "A_tot_Mie_norm", "A_tot_eq_V_norm")}
            cb, ce = {}, {}
            for n, tab in inst.bulk_table.items():
                if "r_e" in tab:
                    cb[n], ce[n] = (lg(np.interp(raw * fac, tab["r_e"].values, tab[v].values)) for v in ("Q_back", "Q_ext"))
                elif n == "CESM_liq" and not ice and fam != "ModelE":
                    y = "cl" if m.lambda_field[x] is None else x
                    lam, mu = (float(m.ds[g[y]].values[t, k]) for g in (m.lambda_field, m.mu_field))
                    L = tab["lambda"].transpose("lambdas", "mu").values
                    pts = np.stack([np.tile(tab["mu"].values, L.shape[0]), L.flatten()], axis=1)
                    cb[n], ce[n] = (lg(LinearNDInterpolator(pts, tab[v].transpose("lambdas", "mu").values.flatten())(mu, lam))
                                    for v in ("Q_back", "Q_ext"))
            if at is not None:
                for n, s in (("p3", ""), ("p3_mie", "_Mie")):
                    cb[n], ce[n] = (lg(p3(v + s + "_bulk", at)) for v in ("Q_back", "Q_ext"))
            s = NZERO if math.isnan(back[i]) and not lidar else lg(back[i])
            if cb.get("CESM_liq") == NNAN:                      # outside of the table: no signal
                cb["CESM_liq"] = ce["CESM_liq"] = NZERO
            ev.append(dict(e, q="back", s=s, cand=cb))
            if lidar:
                ev.append(dict(e, q="ext", s=lg(A(r, "sub_col_alpha_p_%s_%s" % (x, cl))[i]), cand=ce))
    return ev


def empirical(rng, m, inst, r, cl, hyd):
    lidar = inst.instrument_class.lower() == "lidar"
    p, T = m.ds["p_3d"].values * 100., m.ds["t"].values
    ev = []
    for x in hyd:
        q, f = A(m, "%s_q_subcolumns_%s" % (cl, x)), A(m, "%s_frac_subcolumns_%s" % (cl, x))
        re_ = m.ds[(m.conv_re_fields if cl == "conv" else m.strat_re_fields)[x]].values
        for i in pick(rng, (f == 1) & (q > 0)):
            t, k = i[1:]
            w = q[i] * p[t, k] / (mag(inst.R_d) * T[t, k])           # kg m-3
            C = T[t, k] - 273.15
            e = dict(op="emp", err="", at=list(i), tol=60)
            liq = x in ("cl", "pl")
            if lidar:
                a, b = (float(A(r, "sub_col_%s_p_%s_%s" % (v, x, cl))[i]) for v in ("alpha", "beta"))
                if liq:
                    ev.append(dict(e, rel="drops", s=lg(a), w=lg(w), lrho=lg(mag(m.Rho_hyd[x])), lre=lg(re_[t, k])))
                else:
                    ev.append(dict(e, rel="heymsfield", s=lg(a), w=lg(w * 1e3), lt90=lg(C + 90),
                                   b=fx(1.31 * math.exp(.0047 * C), 1e-4), tol=3000))
                ev.append(dict(e, rel="ratio", s=lg(b), w=lg(a), lrho=lg(mag(m.lidar_ratio[x]))))
                continue
            Z = float(A(r, "sub_col_Ze_%s_%s" % (x, cl))[i])
            if liq:
                ev.append(dict(e, rel="fox" if x == "cl" else "hagen", s=lg(lin(Z)), w=lg(w * 1e3), tol=200))
            else:
                g = inst.freq / 1e9
                ev.append(dict(e, rel="hogan", band="S" if 2 <= g < 4 else "W" if 75 <= g < 110 else "Ka",
                               w=fx(math.log10(w * 1e3), 1e-6), t=fx(C, .01), z=fx(Z, .01), tol=2000))
    return ev


def job(item, rng):
    op, name, route, fam, mie, turn = item
    if op == "tables":
        return tables(name)
    proc = fam != "P3" and rng.random() < .7
    T, H, N = rng.choice([1, 2, 3]), rng.choice([2, 3, 5]), rng.choice([1, 2, 4])
    kw = {}
    hyb = 0
    if fam == "P3":
        hyb = kw["hybrid"] = rng.choice([0, 0, 1, 2])
    if rng.random() < .3:
        kw["fluffy"] = False
    classes = ["cl", "ci", "pl"] if fam == "P3" else rng.choice(SETS)
    if fam != "P3" and (turn + (fam == "CESM")) % 2 == 0:
        classes = SETS[2] if route == "micro" or turn % 4 < 2 else SETS[1]      # snow, graupel and hail with every route and table
    inst = instrument(name)
    m = scene(rng, T, H, N, fam, classes, proc=proc, dense=.6, lift=rng.choice([0, 0, 9000]), **kw)
    low = rng.choice([-1, -1, -1, -4, -7])
    for x in m.hyd_types:
        n = m.ds[m.N_field[x]]
        if fam != "P3":
            n.values *= np.array([10 ** rng.uniform(low, 1) for _ in range(n.size)]).reshape(n.shape)
    if fam != "P3":
        if m.fluffy is not None and rng.random() < .5:
            for x in m.fluffy:
                m.fluffy[x] = rng.choice([0., .25, .6, 1.]) * ureg.dimensionless
        for x in classes:
            m.Vd_rhoa_scaling_ref[x] = rng.choice([None, .9, 1., 1.2])
            if x not in ("cl", "pl") and rng.random() < .3:
                n = "rho_" + x
                m.ds[n] = (("time", "height"), np.array([rng.uniform(60, 900) for _ in range(T * H)]).reshape(T, H))
                m.Rho_hyd[x] = "variable"
                m.variable_density[x] = n
        if route == "micro" and any(isinstance(v, str) for v in m.Rho_hyd.values()):
            m.mcphys_scheme = rng.choice(["MG2", "nssl"])
        elif rng.random() < .2:
            m.mcphys_scheme = "nssl"
    with np.errstate(all="ignore"):
        m, err = call(gen, m, N, route != "micro", rng.randint(0, 10 ** 6))
    hyd = rng.sample(list(m.hyd_types), len(m.hyd_types)) if not err else []
    cl = rng.choice(clouds(m)) if not err and route != "micro" else "strat"
    descr = "%s %s %s mie=%s hybrid=%s %s fluffy=%s %s T,H,N=%s" % (
        name, route, fam, mie, hyb, cl, kw.get("fluffy", True), m.mcphys_scheme if not err else "", (T, H, N))
    if not err:
        sfc = rng.random() < .5
        r, err = call(moments, clone(m), inst, cl, route, sfc, mie_for_ice=mie)
    if err:
        return descr, {"ev": [dict(op="bulk", err=err)]}
    with np.errstate(all="ignore"):
        ev = micro(rng, m, inst, r, hyd, mie, hyb) if route == "micro" else \
            bulk(rng, m, inst, r, cl, hyd, mie, hyb) if route == "bulk" else empirical(rng, m, inst, r, cl, hyd)
    return descr, {"ev": ev}


def tables(name):
    """Limits every table has, whatever its source: cross sections in m2, diameters in m."""
    i = instrument(name)
    ev = []
    e0 = dict(op="table", err="")
    # wavelength times frequency is the speed of light
    ev.append(dict(e0, rel="wave", s=lg(i.wavelength * 1e-6), d=lg(i.freq), c=lg(299792458.), tol=2000))
    for x, t in i.mie_table.items():
        D, b, a = (t[v].values for v in ("p_diam", "beta_p", "alpha_p"))
        lam = float(t["wavelength"].values[0]) * 1e-6
        ev.append(dict(e0, rel="bulk", s=lg(lam), d=lg(i.wavelength * 1e-6), c=0, tol=100000))
        if i.instrument_class == "radar":
            for j in np.argwhere((D * math.pi / lam < .03) & (D * math.pi / lam > .006)).ravel()[::5]:
                m2 = complex(float(t.compre_real.values[j]), float(t.compre_im.values[j])) ** 2
                K = abs((m2 - 1) / (m2 + 2)) ** 2
                ev.append(dict(e0, rel="rayleigh", s=lg(b[j]), d=lg(D[j]), c=lg(math.pi ** 5 * K / lam ** 4), tol=20000))
        else:
            for j in np.argwhere(D * math.pi / lam > 1000).ravel()[::7][:12]:
                ev.append(dict(e0, rel="geometric", s=lg(a[j]), d=lg(D[j]), c=lg(math.pi / 2), tol=60000))
    return "tables " + name, {"ev": ev}


ALL = ["KAZR", "WACR", "XSACR", "CSAPR", "NEXRAD", "HSRL", "CEIL", "RL", "1064nm"]


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 30)
    for n in ALL:
        instrument(n)
    inv = ["Signal", "Speed", "Among"]
    c.model("TablesMC", dict(B=2, V=2 if vlib.THOROUGH else 1, Bug='"none"'), inv, props=["All"], deadlock=False, workers=8)
    for b, w in (("mie_ignored", "Signal"), ("stale", "Signal"), ("family", "Signal"), ("carry", "Signal"), ("last", "Signal")):
        c.model("TablesMC", dict(B=2, V=1, Bug='"%s"' % b), [w], expect=w, deadlock=False)
    n = 12 if vlib.THOROUGH else 3
    its = [("tables", x, "", "", False, 0) for x in ALL]
    for i in range(n):
        for name in ("KAZR", "HSRL", rng.choice(["WACR", "XSACR", "CSAPR", "NEXRAD"]), rng.choice(["CEIL", "RL", "1064nm"])):
            for route in ("micro", "bulk", "empirical"):
                for fam in ("ModelE", "CESM", "P3") if route != "empirical" else ("ModelE", "P3"):
                    for mie in (True, False) if route != "empirical" else (False,):
                        its.append(("sim", name, route, fam, mie, i))
        for name in ("WACR", "NEXRAD", "KAZR", "XSACR", "CEIL", "RL"):
            its.append(("sim", name, "empirical", "ModelE", False, i))
    traces = [t for t in vlib.pmap(job, its) if t[1]["ev"]]
    good = [e for _, t in traces for e in t["ev"] if not e["err"]]
    c.info["cells"] = len(good)
    corrupt = []

    def spoil(clause, f, dlt, sel):
        ok = [e for e in good if sel(e) and abs(e[f]) < 1.8e9]
        for _ in range(2 if ok else 0):
            e = copy.deepcopy(rng.choice(ok))
            e[f] += dlt(e)
            corrupt.append((clause, {"ev": [e]}))

    for q, cl in (("back", "backscatter_from_table"), ("ext", "extinction_from_table"), ("vel", "speed_from_particles"),
                  ("width", "width_from_particles")):
        spoil(cl, "s", lambda e: 3 * e["tol"], lambda e: e["op"] == "micro" and e["q"] == q)
    spoil("backscatter_from_table", "s", lambda e: 200, lambda e: e["op"] == "bulk" and e["q"] == "back")
    spoil("extinction_from_table", "s", lambda e: -200, lambda e: e["op"] == "bulk" and e["q"] == "ext")
    spoil("effective_radius", "fi", lambda e: 50, lambda e: e["op"] == "fluff")
    spoil("lidar_ratio", "s", lambda e: 200, lambda e: e["op"] == "emp" and e["rel"] == "ratio")
    for rel in ("fox", "hagen", "hogan", "drops", "heymsfield"):
        f = "w" if rel == "hogan" else "s"
        spoil("published_relation", f, lambda e: 3 * e["tol"] + 500, lambda e: e["op"] == "emp" and e["rel"] == rel)
    spoil("rayleigh_limit", "s", lambda e: 700000, lambda e: e["op"] == "table" and e["rel"] == "rayleigh")
    spoil("geometric_limit", "s", lambda e: 700000, lambda e: e["op"] == "table" and e["rel"] == "geometric")
    spoil("wave_relation", "s", lambda e: 700000, lambda e: e["op"] == "table" and e["rel"] == "wave")
    c.validate("TablesTrace", traces, corrupt, workers=8)
