"""C17 COSP lidar phase emulation (spec/PhaseCosp.tla)."""
import random

from craft import *

NAN = float("nan")
CURVE = [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
CROSS = {"liq": [0.4099, 0.009, 0.], "ice": [0.2904, 0.]}


def poly(co, x):
    y = 0. * x
    for c in co:
        y = y * x + c
    return y


def published(parts, sig, tau, eta, coef):
    """Total and cross-polarized attenuated backscatter of a set of clouds; parts: [{phase: (beta, OD)}]."""
    b, x, o = 0., 0., 0.
    for part in parts:
        for ph, (beta, od) in part.items():
            loss = np.exp(-2 * eta * od)
            co = (sig + beta) * tau * loss
            x = x + poly(coef[ph], co * 1e3) / 1e3 / loss / tau - sig * 0.0284 / 1.0284
            b, o = b + beta, o + od
    loss = np.exp(-2 * eta * o) * tau
    return (b + x + sig * 1.0284) * loss, (x + sig * 0.0284 / 1.0284) * loss


def job(i, rng):
    N, T, H = rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([4, 6])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < .7
    empty = {"prof": [], "nan": False, "cloud": 0, "thr": 0, "conv_t": False, "changed": [], "surplus": [], "refuse": False}
    m, err = base(rng, N, T, H, proc, family=rng.choice(["ModelE", "ModelE", "P3"]))
    if err:
        return [("setup", dict(empty, err=err))]
    out = []
    shape = (N, T, H)
    for step in range(4):
        n = clone(m)
        if step == 3:
            n.process_conv = False
        inst = instrument("HSRL") if rng.random() < .9 else instrument(rng.choice(["CEIL", "RL", "KAZR"]))
        refuse = inst.instrument_str != "HSRL"
        sfc, eta = rng.random() < .5, rng.choice([0.7, 0.7, 1., 0.4])
        K = np.array([[rng.choice([220., 233.15, 240., 250.25, 265.5, 273.15, 280., 233., 273.25]) for _ in range(H)]
                      for _ in range(T)])
        degc = rng.random() < .4
        put(n, n.T_field, K - 273.15 if degc else K)
        if degc:
            n.ds[n.T_field].attrs["units"] = "degC"
        sig = 10 ** np.array([[rng.uniform(-7, -5.5) for _ in range(H)] for _ in range(T)])
        tau = np.array([[rng.uniform(.5, 1.) for _ in range(H)] for _ in range(T)])
        put(n, "sigma_180_vol", sig), put(n, "tau", tau)
        vals = {}
        for cl in clouds(n):
            for x in n.hyd_types:
                on = np.array([rng.random() < .5 for _ in range(N * T * H)]).reshape(shape)
                b = on * 10 ** np.array([rng.uniform(-8, -3.6) for _ in range(N * T * H)]).reshape(shape)
                o = np.array([[beam(np.cumsum([rng.choice([0, 0, .1, .6]) for _ in range(H)]), sfc) for _ in range(T)]
                              for _ in range(N)])
                if rng.random() < .2:
                    b[rng.randrange(N), 0, rng.randrange(H)] = NAN
                vals[cl, x] = b, o
                put(n, "sub_col_beta_p_%s_%s" % (x, cl), b), put(n, "sub_col_OD_%s_%s" % (x, cl), o)
        hyd = None if rng.random() < .4 else rng.sample(n.hyd_types, rng.randint(1, len(n.hyd_types)))
        precip = rng.random() < .6
        nan = rng.random() < .4
        kw = {"eta": eta} if eta != .7 or rng.random() < .5 else {}
        kw["OD_from_sfc"] = sfc
        if not precip or rng.random() < .5:
            kw["inc_precip_hyd_atb"] = precip
        if hyd:
            kw["hyd_types"] = list(hyd)
        if nan:
            kw["convert_zeros_to_nan"] = True
        cloud, thr, curve, coef = 5., 30., CURVE, CROSS
        if rng.random() < .3:
            cloud, thr = rng.choice([3., 8.]), rng.choice([15., 40.])
            kw.update(cloud_SR_thresh=cloud, undef_SR_thresh=thr)
        if rng.random() < .3:
            curve = [0.1, 0.15, 0.001]
            kw["phase_disc_curve"] = list(curve)
        if rng.random() < .3:
            coef = {"liq": [0.02, 0.], "ice": [0.1, 0.25, 0.]}
            kw["atb_cross_coeff"] = copy.deepcopy(coef)
        s = snap(n)
        res, err = call(cf.lidar_emulate_cosp_phase, inst, n, output_ATB=True, **kw)
        d = "%s conv=%s hyd=%s precip=%s sfc=%s degC=%s eta=%s nan=%s step=%d" % (
            inst.instrument_str, n.process_conv, hyd, precip, sfc, degc, eta, nan, step)
        rec = dict(empty, err=err, nan=nan, cloud=int(cloud * 10000), thr=int(thr * 10000), conv_t=degc, refuse=refuse,
                   prof=[], changed=[], surplus=[])
        if not err:
            kinds = clouds(n) + ["all_hyd"]
            names = ["COSP_phase_mask_all_hyd"] + ["%s_COSP_phase_mask" % x for x in clouds(n)]
            names += ["COSP_%s_%s" % (a, x) for a in ("ATBtot", "ATBcross", "SR") for x in kinds]
            rec["changed"] = diff(res, s, names)
            rec["surplus"] = [k for k in res.ds.variables if k not in s and k not in names]
            n2 = clone(m)
            n2.process_conv = n.process_conv
            for k in s:
                n2.ds[k] = res.ds[k].copy(deep=True)
            res2, err2 = call(cf.lidar_emulate_cosp_phase, inst, n2, **kw)
            rec["err"] = err2
            if not err2:
                rec["surplus"] += [k for k in res2.ds.variables if k not in s and "mask" not in k]
            use = [x for x in (hyd or n.hyd_types) if precip or x in ("cl", "ci")]
            parts = {}
            for cl in clouds(n):
                parts[cl] = {ph: [sum((np.nan_to_num(vals[cl, x][j]) for x in use if x in t), np.zeros(shape))
                                  for j in (0, 1)] for ph, t in (("liq", ("cl", "pl")), ("ice", [x for x in n.hyd_types if x not in ("cl", "pl")]))}
            mol = np.broadcast_to(sig * 1.0284 * tau, shape)
            for k in kinds if not err2 else []:
                et, ec = published([parts[k]] if k in parts else list(parts.values()), sig[None], tau[None], eta, coef)
                tot, crs, sr = (A(res, "COSP_%s_%s" % (a, k)) for a in ("ATBtot", "ATBcross", "SR"))
                mn = "COSP_phase_mask_all_hyd" if k == "all_hyd" else k + "_COSP_phase_mask"
                M, M2 = A(res, mn), A(res2, mn)
                disc = poly(curve, tot * 1e3) / 1e3
                for a, t in np.ndindex((N, T)):
                    S = beam(sr[a, t], sfc)
                    if any(abs(x - thr) < 1e-4 or abs(x - cloud) < 1e-4 for x in S):
                        continue
                    u = norm(np.concatenate([et[a, t], ec[a, t]]))
                    gap = (crs[a, t] - disc[a, t]) / (1e-6 * np.maximum(np.abs(crs[a, t]), np.abs(disc[a, t])))
                    B = lambda v, un: fxs(beam(v[a, t], sfc), un)
                    rec["prof"].append({"what": {"strat": "stratiform", "conv": "convective"}.get(k, "combined"),
                                        "sr": fxs(S, 1e-4), "gap": fxs(beam(np.clip(gap, -1e9, 1e9), sfc)),
                                        "t": fxs(beam(K[t], sfc), 1e-3), "m": B(M, 1.), "m2": B(M2, 1.),
                                        "tot": B(tot, u), "crs": B(crs, u), "etot": B(et, u), "ecrs": B(ec, u),
                                        "lsr": lgs(S), "ltot": lgs(beam(tot[a, t], sfc)),
                                        "lmol": lgs(beam(mol[a, t], sfc))})
        out.append((d, rec))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 17)
    for x in ("HSRL", "CEIL", "RL", "KAZR"):
        instrument(x)
    inv = ["Sequence", "Sane"]
    c.model("PhaseCospMC", dict(H=2, Bug='"none"'), inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("PhaseCospMC", dict(H=3, Bug='"none"'), inv, deadlock=False, workers=8)
    for bug in ("end", "self", "phantom"):
        c.model("PhaseCospMC", dict(H=2, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)
    traces = [t for r in vlib.pmap(job, range(150 if vlib.THOROUGH else 24)) for t in r]
    c.info["profiles"] = sum(len(t["prof"]) for _, t in traces)
    c.info["classes_seen"] = sorted(set(v for _, t in traces for p in t["prof"] for v in p["m"]))
    good = [t for _, t in traces if not t["err"] and t["prof"]]
    corrupt = []
    for w in ("stratiform", "convective", "combined"):
        for what in ("class", "signals"):
            t = copy.deepcopy(rng.choice([t for t in good if any(p["what"] == w for p in t["prof"])]))
            p = rng.choice([p for p in t["prof"] if p["what"] == w])
            j = rng.randrange(len(p["sr"]))
            if what == "class":
                p["m"][j] = p["m2"][j] = 7
            else:
                p["tot"][j] = int(p["tot"][j] * 1.001) + 1000
            corrupt.append((w + "_" + what, t))
    for cl, f, v in (("nothing_else_changes", "changed", ["t"]), ("fields_only_on_request", "surplus", ["x"]),
                     ("refused_for_other_instruments", "refuse", True)):
        t = copy.deepcopy(rng.choice(good))
        t[f] = v
        corrupt.append((cl, t))
    c.validate("PhaseCospTrace", traces, corrupt, workers=8)
