"""C28 gaseous attenuation and molecular scattering (spec/Gas*.tla)."""
import math
import random

from radar import *
from emcfix import Synth
from emc2.simulator.attenuation import calc_radar_atm_attenuation, calc_theory_beta_m

RAD = ["KAZR", "WACR", "XSACR", "CSAPR", "NEXRAD"]
PU = {"hPa": 1., "Pa": 100.}


def atmosphere(rng, T, H):
    z = np.array([np.cumsum([rng.uniform(1, 400)] + [rng.uniform(50, 6000) for _ in range(H - 1)]) for _ in range(T)])
    mk = lambda f: np.array([[f() for _ in range(H)] for _ in range(T)])
    p = mk(lambda: rng.choice([rng.uniform(900, 1050), rng.uniform(333, 900), rng.uniform(25, 333), rng.uniform(.5, 25),
                               333., 25.]))
    p = -np.sort(-p, axis=1)
    t = mk(lambda: rng.uniform(195, 312))
    m = Synth(T, H, z=z, p=p, t=t)
    m.ds["q"].values[:] = mk(lambda: rng.choice([0., 1e-6, 10 ** rng.uniform(-5, -1.6)]))
    return m, p, t


def ln(x):
    return math.log(x)


def job(item, rng):
    op, rep = item
    T, H = rng.choice([1, 2, 3]), rng.choice([2, 4, 6])
    m, p, t = atmosphere(rng, T, H)
    pu, tu = rng.choice(list(PU)), rng.choice(["kelvin", "degC"])
    m.ds["p_3d"] = (m.ds["p_3d"].dims, p * PU[pu], {"units": pu})
    if tu == "degC":
        m.ds["t"] = (m.ds["t"].dims, t - 273.15, {"units": "degC"})
    ev = []
    if op == "gas":
        name = rng.choice(RAD)
        inst = instrument(name)
        moist = clone(m)
        moist.ds["q"].values[:] = m.ds["q"].values * 1.5 + 1e-6
        (a, e1), (b, e2), (c, e3) = (call(calc_radar_atm_attenuation, i, clone(x))
                                     for i, x in ((inst, m), (inst, moist), (instrument("KAZR"), m)))
        err = e1 or e2 or e3
        f = inst.freq / 1e9
        q = m.ds["q"].values
        for i in np.ndindex(q.shape):
            P, K = p[i], t[i]
            th, rho = 300. / K, q[i] * 1e3 * P * 100 / (287.058 * K)
            e = dict(op="gas", err=err)
            if not err:
                A3 = [A(x, n)[i] for x in (a,) for n in ("kappa_o2", "kappa_wv", "kappa_att")]
                u = norm(A3, 1e8)
                g1 = 2.85 * P / 1013. * th ** .626 * (1 + .018 * rho * K / P)
                lw = ln(g1) + ln(th * math.exp(-644 / K) / ((494.4 - f * f) ** 2 + 4 * f * f * g1 * g1) + 1.2e-6)
                lo = []
                for g0 in (.59, .59 * (1 + 3.1e-3 * (333 - P)), 1.18):
                    g = g0 * P / 1013. * th ** .85
                    lo.append(lg(g * (1 / ((f - 60) ** 2 + g * g) + 1 / (f * f + g * g))) if g > 0 else 0)
                e.update(p=int(math.floor(P * 100)), lf=lg(f), lp=lg(P / 1013.), lth=lg(th), lrho=lg(rho), lw=fx(lw, 1e-6),
                         lo=lo, lko=lg(A3[0]), lkw=lg(A3[1]), lka=lg(A3[2]), ko=fx(A3[0], u), kw=fx(A3[1], u),
                         ka=fx(A3[2], u),
                         moist=dict(kw=fx(A(b, "kappa_wv")[i], u), ka=fx(A(b, "kappa_att")[i], u),
                                    lko=lg(A(b, "kappa_o2")[i])))
                if min(abs(P - 333), abs(P - 25)) < .01 and P not in (333., 25.):
                    continue
                if q[i] < 1e-7 * 0 or e["moist"]["kw"] == e["kw"] and A3[1] < u:
                    continue                               # vapour part below the resolution of the record
                if name == "WACR":
                    e["lka35"] = lg(A(c, "kappa_att")[i])
            ev.append(e)
        return "gas %s T=%d H=%d %s %s" % (name, T, H, pu, tu), {"ev": ev}
    lam = rng.choice([.355, .532, .910, 1.064, .905, .43, 1.5])
    sfc = rng.random() < .5
    r, err = call(calc_theory_beta_m, clone(m), lam, **(dict(OD_from_sfc=sfc) if not sfc or rng.random() < .5 else {}))
    nu = 1 / lam
    ref = (6432.8 + 2949810 / (146 - nu ** 2) + 25540 / (41 - nu ** 2)) * 1e-8
    for i in np.ndindex(p.shape):
        P, K = p[i], t[i]
        e = dict(op="mol", err=err)
        if not err:
            V = {n: float(A(r, n)[i]) for n in ("N_s", "n_s", "sigma", "sigma_180", "sigma_180_vol", "beta", "kappa", "tau",
                                                "u_atm")}
            n1 = V["n_s"] - 1
            if n1 < 3e-9:
                continue                                   # refractivity lost in the rounding of n itself
            rel = 2.3e-16 / n1 * 1e6
            if rel > 10:
                continue
            if V["u_atm"] > 600:
                continue
            B, Z = A(r, "beta")[i[0]], m.ds["z"].values[i[0]]
            e.update(lN=lg(V["N_s"]), lpPa=lg(P * 100), lT=lg(K), lNA=lg(6.022140857e23), lR=lg(8.3144598), ln1=lg(n1),
                     lref=lg(ref), la15=lg(1 + .00366 * 15), laT=lg(1 + .00366 * (K - 273.15)), lp=lg(P / 1013.25),
                     lsig=lg(V["sigma"]), ln2=lg(V["n_s"] ** 2 - 1), llam=lg(lam * 1e-6),
                     lking=lg((6 + 3 * .035) / (6 - 7 * .035)), lbeta=lg(V["beta"]), lvol=lg(V["sigma_180_vol"]),
                     ls180=lg(V["sigma_180"]), lkap=lg(V["kappa"]), lrho=lg(P * 100 / (287.058 * K)), ltau=lg(V["tau"]),
                     u=fx(V["u_atm"], 1e-6), k=i[1] + 1, sfc=sfc,
                     layers=fxs([(B[j] + B[j + 1]) / 2 * (Z[j + 1] - Z[j]) for j in range(H - 1)], 1e-6))
        ev.append(e)
    return "molecules %.3f um T=%d H=%d %s %s" % (lam, T, H, pu, tu), {"ev": ev}


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 28)
    for x in RAD:
        instrument(x)
    k = dict(Levels=3, MaxQ=3 if vlib.THOROUGH else 2)
    c.model("GasMC", dict(k, Bug='"none"'), ["Own", "Parts", "Dry", "Grows"], deadlock=False, workers=8)
    for b, w in (("range", "Own"), ("below", "Own"), ("dry", "Dry"), ("stale", "Own"), ("part", "Parts")):
        c.model("GasMC", dict(Levels=2, MaxQ=2, Bug='"%s"' % b), [w], expect=w, deadlock=False)
    its = [(op, i) for i in range(200 if vlib.THOROUGH else 40) for op in ("gas", "mol")]
    traces = vlib.pmap(job, its)
    c.info["cells"] = sum(len(t["ev"]) for _, t in traces)
    good = [e for _, t in traces for e in t["ev"] if not e["err"]]
    corrupt = []
    for op, cl, f, dlt in (("gas", "oxygen_as_published", "lko", 200), ("gas", "vapour_as_published", "lkw", 200),
                           ("gas", "sum_of_both", "ka", 500), ("mol", "ideal_gas", "lN", 200),
                           ("mol", "refractivity", "ln1", 500), ("mol", "scattering_cross_section", "lsig", 200),
                           ("mol", "volume_extinction", "lbeta", 200), ("mol", "volume_backscatter", "lvol", 200),
                           ("mol", "backscatter_ratio", "ls180", 200), ("mol", "mass_extinction", "lkap", 200),
                           ("mol", "two_way_transmittance", "ltau", 200), ("mol", "optical_depth_of_layers_between", "u", 200)):
        ok = [e for e in good if e["op"] == op and e["op"] == op and abs(e[f]) < 1.8e9]
        for _ in range(2 if ok else 0):
            e = copy.deepcopy(rng.choice(ok))
            e[f] += dlt * rng.choice([-1, 1])
            corrupt.append((cl, {"ev": [e]}))
    c.validate("GasTrace", traces, corrupt, workers=8)
