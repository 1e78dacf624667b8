"""C20 Doppler moments of mixtures (spec/Mixture.tla, DopplerTrace.tla)."""
import random

from radar import *

SCHEMES = ["ModelE", "CESM", "P3", "nssl", "nssl-var", "morrison"]


def make(scheme, rng, T, H, N):
    up = rng.choice([0, 0, 9000])                # also in thin air
    if scheme.startswith("nssl"):
        cl = ["cl", "ci", "pl", "pi"] if scheme == "nssl" else rng.choice([["cl", "ci", "pl", "gr"], ["cl", "ci", "gr", "ha", "sn"]])
        m = scene(rng, T, H, N, family="ModelE", classes=cl, proc=False, dense=.7, mcphys="nssl", lift=up)
        for x in cl:
            if x in ("gr", "ha"):
                m.Rho_hyd[x] = "variable"
                m.variable_density[x] = "rho_" + x
                m.ds["rho_" + x] = m.ds["strat_q_cl"] * 0 + rng.uniform(300, 800) + 50 * m.ds["z"] / 1000
        return m
    fam = scheme if scheme != "morrison" else "ModelE"
    kw = {} if scheme == "P3" else {"mcphys": "morrison" if scheme == "morrison" else rng.choice(["MG2", "MG2", "MG"])}
    m = scene(rng, T, H, N, family=fam, proc=False, dense=.7, lift=up, **kw)
    if rng.random() < .7:
        m.Vd_rhoa_scaling_ref = {x: rng.choice([None, 0.8, 1.0, 1.15]) for x in m.hyd_types}
    return m


def cells(m, hyd, width):
    F = {x: (lin(A(m, "sub_col_Ze_%s_strat" % x)), A(m, "sub_col_Vd_%s_strat" % x),
             A(m, "sub_col_sigma_d_%s_strat" % x)) for x in hyd}
    tv, ts = A(m, "sub_col_Vd_tot_strat"), A(m, "sub_col_sigma_d_tot_strat")
    out = []
    for idx in np.ndindex(tv.shape):
        z = [F[x][0][idx] for x in hyd]
        zs = np.nansum(z)
        u = norm([F[x][j][idx] for x in hyd for j in (1, 2)] + [tv[idx], ts[idx] if width else 0.], 20000)
        out.append({"w": [fx(a, zs * 1e-6) if zs > 0 and a > 0 else NNAN for a in z],
                    "v": [fx(F[x][1][idx], u) for x in hyd], "s": [fx(F[x][2][idx], u) for x in hyd],
                    "tv": fx(tv[idx], u), "ts": fx(ts[idx], u)})
    return out


def pairs(a, b, m, hyd, dens=True):
    out = []
    rho = A(m, "rho_a")
    for x in hyd:
        ref = m.Vd_rhoa_scaling_ref.get(x)
        va, vb = A(a, "sub_col_Vd_%s_strat" % x), A(b, "sub_col_Vd_%s_strat" % x)
        sa, sb = A(a, "sub_col_sigma_d_%s_strat" % x), A(b, "sub_col_sigma_d_%s_strat" % x)
        for idx in np.ndindex(va.shape):
            if not (vb[idx] < 0):
                continue
            r = {"a": lg(-va[idx]), "b": lg(-vb[idx])}
            if dens:
                l = lg(rho[idx[1:]])
                w = sb[idx] > 1e-6 * -vb[idx]
                r.update(la=l, lr=l if ref is None else lg(ref), wa=lg(sa[idx]) if w else NNAN, wb=lg(sb[idx]) if w else NNAN)
            out.append(r)
    return out[:120]


def job(item, rng):
    scheme, mie, rep = item
    T, H, N = 2, rng.choice([4, 5]), rng.choice([1, 3])
    N, T, H = big(rng, N, T, H)
    inst = instrument(rng.choice(["KAZR", "WACR", "XSACR"]))
    d = "%s mie=%s %s" % (scheme, mie, inst.instrument_str)
    m, err = call(lambda: gen(make(scheme, rng, T, H, N), N, False, rng.randrange(10**6)))
    empty = {"cell": [], "corr": [], "scale": [], "width": True}
    if err:
        return [(d, dict(empty, err=err))]
    out = []
    for step in range(2):
        hyd = list(m.hyd_types)
        rng.shuffle(hyd)
        if step:
            hyd = hyd[:rng.randint(1, len(hyd))]
        width = step == 0 or rng.random() < .7

        def go():
            r = sim_radar(clone(m), inst, "micro", True, mie, hyd, ["strat"], calc_spectral_width=width)
            corr, scale = [], []
            if step == 0:
                m2 = clone(m)
                m2.Vd_rhoa_scaling_ref = {x: None for x in hyd}
                b = sim_radar(m2, inst, "micro", True, mie, hyd, ["strat"])
                corr = pairs(r, b, m, hyd)
                if scheme in ("ModelE", "CESM", "morrison"):
                    m3 = clone(m2)
                    m3.vel_param_a = {k: 2 * v for k, v in m.vel_param_a.items()}
                    scale = pairs(sim_radar(m3, inst, "micro", True, mie, hyd, ["strat"]), b, m, hyd, False)
            return r, corr, scale
        r, err = call(go, timeout=200)
        t = dict(empty, err=err, width=width)
        if not err:
            t.update(cell=cells(r[0], hyd, width), corr=r[1], scale=r[2])
        out.append((d + " hyd=%s width=%s" % (hyd, width), t))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 20)
    for x in ("KAZR", "WACR", "XSACR"):
        instrument(x)
    k = dict(Classes='{"x","y"}', Speeds="{0,1,3}", MaxW=2, Bug='"none"')
    inv = ["MeanOK", "WidthOK", "Split"]
    c.model("Mixture", k, inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("Mixture", dict(k, Classes='{"x","y","z"}', Speeds="{0,2,3}", MaxW=1), inv, deadlock=False, workers=8)
        c.model("Mixture", dict(k, Speeds="{0,1,2,5}"), inv, deadlock=False, workers=8)
    for bug in ("reset", "own"):
        c.model("Mixture", dict(k, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)
    its = [(s, mie, i) for i in range(16 if vlib.THOROUGH else 2) for s in SCHEMES for mie in (True, False)]
    traces = [t for r in vlib.pmap(job, its) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["width"] and t["corr"]]
    corrupt = []
    for cl in ("class_moments_defined", "total_velocity_is_weighted_mean", "total_velocity_between_classes",
               "total_width_combines_spread", "air_density_correction", "fall_speed_coefficient"):
        for _ in range(3):
            t = copy.deepcopy(rng.choice([t for t in good if t["scale"] or cl[0] != "f"]))
            cs = [x for x in t["cell"] if any(0 < w < NNAN for w in x["w"])]
            x = rng.choice(cs)
            if cl == "class_moments_defined":
                i = rng.choice([i for i, w in enumerate(x["w"]) if 0 < w < NNAN])
                x[rng.choice("vs")][i] = NNAN
            elif cl == "total_velocity_is_weighted_mean":
                x["tv"] += rng.choice([20, -20])
            elif cl == "total_velocity_between_classes":
                x["tv"] = min(v for v in x["v"] if v < NNAN) - 100
            elif cl == "total_width_combines_spread":
                x["ts"] = x["ts"] + 3000
            elif cl == "air_density_correction":
                rng.choice(t["corr"])["a"] += 100
            else:
                rng.choice(t["scale"])["a"] += 100
            corrupt.append((cl, t))
    c.validate("DopplerTrace", traces, corrupt, workers=8)
