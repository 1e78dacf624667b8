"""C29 size distributions and fall speeds (spec/Psd*.tla)."""
import math
import random

from scipy.special import gammaln

from radar import *
from emcfix import SynthP3, quiet
from emc2.simulator.psd import calc_mu_lambda, calc_and_set_psd_params, calc_velocity_nssl
import digest

NAMES = ["ModelE", "DHARMA", "E3SMv1", "CESM2", "WRF", ""]


def prepared(rng, fam="ModelE", scheme=None, classes=CLASSES):
    T, H, N = rng.choice([1, 2, 3]), rng.choice([2, 3, 5]), rng.choice([1, 3, 6])
    m = scene(rng, T, H, N, fam, classes, proc=fam != "P3", dense=.6)
    for x in m.hyd_types:                                   # numbers over a wide range
        f = m.ds[m.N_field[x]]
        f.values *= np.array([10 ** rng.uniform(-1, 1) for _ in range(f.size)]).reshape(f.shape)
    if scheme:
        m.mcphys_scheme = scheme
    with quiet():
        return gen(m, N, False, rng.randint(0, 10 ** 6)), (T, H, N)


def others(m):
    return {n: (tuple(v.dims), v.values.tobytes()) for n, v in m.ds.variables.items() if n not in ("mu", "lambda", "N_0")}


def job(item, rng):
    op, rep = item
    if op == "vt":
        return speeds(rng)
    if op == "p3":
        return p3(rng)
    name = rng.choice(NAMES)
    if op == "martin":
        name = rng.choice(["E3SMv1", "CESM2", "WRF", ""])
    x = "cl" if op == "martin" else rng.choice(["cl", "ci", "pl", "pi"])
    scheme = rng.choice(["MG2", "MG", "Morrison", "nssl"])
    m, dims = prepared(rng, scheme=scheme)
    m.model_name = name
    conv = False
    kw = {}
    if op == "psd":
        if x == "cl":
            if name not in ("ModelE", "DHARMA") or rng.random() < .5:
                kw["calc_dispersion"] = False
        elif rng.random() < .5:
            kw["calc_dispersion"] = rng.choice([True, False])
    elif name in ("ModelE", "DHARMA") or rng.random() < .3:
        kw["calc_dispersion"] = True
    lo, hi = 2, 15
    if rng.random() < .3:
        lo, hi = kw["dispersion_mu_bounds"] = rng.choice([(1, 20), (4, 9), (0.5, 6.5)])
    if rng.random() < .3:                                   # droplets and drops of convective cloud as well
        if op == "psd":
            conv = True
            kw["is_conv"] = True
            for y in CLASSES:
                q = m.ds["conv_q_subcolumns_" + y]
                m.ds["conv_n_subcolumns_" + y] = (q.dims, np.where(q.values > 0, 10 ** rng.uniform(-3, 2), 0.))
    cl = "conv" if conv else "strat"
    dens = np.broadcast_to(m.Rho_hyd[x].magnitude, m.ds["p_3d"].shape)
    if rng.random() < .3:
        dens = np.array([rng.uniform(50, 900) for _ in range(m.ds["p_3d"].size)]).reshape(m.ds["p_3d"].shape)
        m.ds["rho_var"] = (("time", "height"), dens)
        m.Rho_hyd[x] = "variable"
        m.variable_density = {x: "rho_var"}
    if op == "martin":                                      # half of the cells with droplet numbers where it matters
        n = m.ds["strat_n_subcolumns_cl"]
        n.values = np.where(n.values > 0, n.values * 10 ** rng.uniform(-1, 1.5), 0.)
    before = others(m)
    fn = rng.choice(["mu_lambda", "set"])
    r, err = call(calc_mu_lambda if fn == "mu_lambda" else calc_and_set_psd_params, m, x, **kw)
    descr = "%s %s %s model=%s scheme=%s %s T,H,N=%s" % (op, x, fn, name, scheme, kw, dims)
    if err:
        return descr, {"ev": [dict(op="psd", err=err)]}
    ds = r.ds if fn == "mu_lambda" else r
    same = int(others(m) == before)
    sub = ("subcolumn", "time", "height")
    Q, n = (m.ds["%s_%s_subcolumns_%s" % (cl, v, x)].transpose(*sub).values for v in "qn")
    mu, lam, n0 = (ds[v].transpose(*sub).values for v in ("mu", "lambda", "N_0"))
    air = m.ds["p_3d"].values * 100 / (287.0586 * m.ds["t"].values)
    how = "martin" if op == "martin" else "fixed" if x == "cl" and not conv else "none"
    ev = []
    for i in np.ndindex(Q.shape):
        if len(ev) > 60:
            break
        if n[i] <= 0 and Q[i] > 0:
            continue
        mm = float(mu[i])
        e = dict(op="psd", err="", q=lg(Q[i]), air=lg(air[i[1:]]), dens=lg(dens[i[1:]]), n=lg(n[i] * 1e6), lam=lg(lam[i]),
                 n0=lg(n0[i]), mu=fx(mm, 1e-6), g1=fx(gammaln(mm + 1), 1e-6), g4=fx(gammaln(mm + 4), 1e-6),
                 pl=fx((mm + 1) * math.log(lam[i]), 1e-6) if lam[i] > 0 else 0, how=how, lo=fx(lo, 1e-6), hi=fx(hi, 1e-6),
                 llo1=lg(lo + 1), lhi1=lg(hi + 1), lm1=lg(mm + 1), leta=lg(.0005714 * n[i] + .2714),
                 letab=lg(.0005714e-6 * n[i] + .2714), same=same)
        ev.append(e)
    return descr, {"ev": ev}


def p3(rng):
    m, dims = prepared(rng, "P3", classes=["cl", "ci", "pl"])
    lut = instrument("KAZR").scat_table["p3_ice"]
    ax = [lut[n].values for n in ("Fr", "rho_r", "q_norm")]
    fields = ("Fr", "rho_r", "qi_norm")
    q = m.ds["strat_q_ci"].values
    limit = rng.random() < .7
    for a, n in zip(ax, fields):
        v = m.ds[n].values
        for i in np.ndindex(v.shape):
            if np.isfinite(v[i]):
                z = rng.random()
                v[i] = rng.choice(list(a)) if z < .4 else 10 ** rng.uniform(math.log10(a[0] + 1e-9), math.log10(a[-1])) \
                    if n == "qi_norm" else rng.uniform(a[0], a[-1])
                if limit and z > .85:
                    v[i] = rng.choice([a[0] * .5 - 1e-3 * (n != "qi_norm"), a[-1] * 1.3])
    V = [m.ds[n].values.copy() for n in fields]
    before = {n: v.values.tobytes() for n, v in m.ds.variables.items() if n not in ("mu_ice", "lambda_ice", "N0_norm_ice")}
    _, err = call(m.interp_p3_ice_psd_params_to_grid, lut, limit)
    descr = "p3 table limit=%s T,H,N=%s" % (limit, dims)
    r = None
    if not err:
        r, err = call(calc_and_set_psd_params, m, "ci")
    if err:
        return descr, {"ev": [dict(op="p3", err=err)]}
    same = int(before == {n: v.values.tobytes() for n, v in m.ds.variables.items()
                          if n not in ("mu_ice", "lambda_ice", "N0_norm_ice")})
    tab = lut["lambda"].transpose("Fr", "rho_r", "q_norm").values
    ev = []
    for i in np.ndindex(q.shape):
        l, mu, n0 = (float(r[v].values[i]) for v in ("lambda", "mu", "N_0"))
        e = dict(op="p3", err="", q=NZERO, lam=lg(l), n0=lg(n0), mu=fx(mu, 1e-6), same=same, n=lg(m.ds["in_cld_Ni"].values[i]),
                 lo=0, hi=0, s=0, g1=0, pl=0)
        if all(np.isfinite(v[i]) for v in V):
            ix = []
            for a, v in zip(ax, V):
                x = min(max(v[i], a[0]), a[-1])
                j = [k for k in range(len(a)) if a[k] == x]
                ix.append(j if j else [max(k for k in range(len(a)) if a[k] < x), min(k for k in range(len(a)) if a[k] > x)])
            c = [tab[a, b, d] for a in ix[0] for b in ix[1] for d in ix[2]]
            e.update(q=0, lo=lg(min(c)), hi=lg(max(c)))
        if l > 0:
            e.update(s=fx(.076 * (l / 100) ** .8 - 2, 1e-6), g1=fx(gammaln(mu + 1), 1e-6), pl=fx((mu + 1) * math.log(l), 1e-6))
        if e["n"] > 1800000000:
            continue
        ev.append(e)
    return descr, {"ev": ev}


def speeds(rng):
    d = np.array([10 ** rng.uniform(-5, -1.5) for _ in range(12)])
    x = rng.choice(["cl", "pl", "sn", "gr", "ha", "ci", "gr", "ha"])
    rho = rng.choice([np.array([rng.choice([rng.uniform(50, 950), 170., 500., 800.]) for _ in d]), rng.uniform(50, 950)])
    r, err = call(calc_velocity_nssl, d.copy(), rho if np.isscalar(rho) else rho.copy(), x)
    ev = []
    for i, D in enumerate(d):
        e = dict(op="vt", err=err)
        if not err:
            R = rho if np.isscalar(rho) else rho[i]
            if x in ("gr", "ha"):
                lo = 170 if x == "gr" else 500
                cd = .45 + .55 * (800 - min(800, max(lo, R))) / (800 - lo)
                w = math.sqrt(4 * R * 9.81 * D / (3 * cd * 1.007))
            else:
                w = {"pl": 10 * (1 - math.exp(-516.575 * D)), "sn": 21.52823061429272 * D ** .42, "cl": 131.6 * D ** .824,
                     "ci": 0.}[x]
            e.update(v=lg(np.asarray(r)[i]), want=lg(w))
        ev.append(e)
    return "fall speeds %s rho=%s" % (x, "scalar" if np.isscalar(rho) else "array"), {"ev": ev}


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 29)
    instrument("KAZR")
    k = dict(NC=2, L=3 if vlib.THOROUGH else 2)
    inv = ["Closure", "Empty"]
    c.model("PsdMC", dict(k, Bug='"none"'), inv, deadlock=False, workers=8)
    for b, w in (("per_mass", "Closure"), ("stale_density", "Closure"), ("shape", "Closure"), ("dry", "Empty")):
        c.model("PsdMC", dict(k, L=2, Bug='"%s"' % b), [w], expect=w, deadlock=False)
    n = 150 if vlib.THOROUGH else 30
    its = [(op, i) for i in range(n) for op in ("psd", "psd", "martin", "p3", "vt")]
    traces = vlib.pmap(job, its)
    traces = [t for t in traces if t[1]["ev"]]
    c.info["cells"] = sum(len(t["ev"]) for _, t in traces)
    good = [e for _, t in traces for e in t["ev"] if not e["err"]]
    corrupt = []
    for op, cl, f, dlt in (("psd", "number_of_particles", "n0", 200), ("psd", "mass_of_water", "air", 200),
                           ("psd", "shape_as_published", "mu", 300000), ("psd", "input_unchanged", "same", -1),
                           ("p3", "slope_from_table", "lam", 10 ** 7), ("p3", "shape_from_slope", "mu", 10 ** 7),
                           ("p3", "number_of_particles", "n0", 200), ("vt", "speed_as_published", "v", 200)):
        ok = [e for e in good if e["op"] == op and abs(e.get("q", 0)) < 1.8e9 and abs(e[f]) < 1.8e9 and
              (f != "mu" or op != "psd" or e["how"] != "martin")]
        for _ in range(2 if ok else 0):
            e = copy.deepcopy(rng.choice(ok))
            e[f] += dlt
            corrupt.append((cl, {"ev": [e]}))
    dry = [e for e in good if e["op"] == "psd" and e["q"] == NZERO]
    for e in dry[:2]:
        corrupt.append(("none_without_water", {"ev": [dict(e, lam=100)]}))
    mar = [e for e in good if e["op"] == "psd" and e["how"] == "martin" and abs(e["q"]) < 1.8e9]
    for e in mar[:2]:
        corrupt.append(("shape_as_published", {"ev": [dict(e, mu=e["lo"] + 1000000, lm1=e["llo1"] + 300000)]}))
    c.validate("PsdTrace", traces, corrupt, workers=8)
