"""C16 radar-sounding classification (spec/PhaseRadar.tla)."""
import random

from craft import *

NAN = float("nan")
SKIP = NNAN - 1


def job(i, rng):
    N, T, H = rng.choice([1, 3]), rng.choice([1, 3]), rng.choice([3, 5])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < .7
    inst = instrument(rng.choice(["KAZR", "WACR", "XSACR"]))
    m, err = base(rng, N, T, H, proc, "radar", inst, family=rng.choice(["ModelE", "ModelE", "P3"]))
    if err:
        return [("setup", {"err": err, "conv": proc, "rng": [], "nan": False, "cell": [], "changed": []})]
    km = rng.random() < .3
    if km:
        m.ds[m.z_field] = (m.ds[m.z_field] / 1000.).assign_attrs(units="km")
    out = []
    for step in range(5):
        shape = (N, T, H)
        zmin = np.array([[rng.choice([-40.25, -30., 0., 12.5]) for _ in range(H)] for _ in range(T)])
        put(m, "Ze_min", zmin)
        F = {}
        for k, name in (("t", "sub_col_Ze_att_tot"), ("s", "sub_col_Ze_att_tot_strat"), ("c", "sub_col_Ze_att_tot_conv")):
            v = np.zeros(shape)
            for idx in np.ndindex(shape):
                v[idx] = zmin[idx[1:]] + rng.choice([0., 0., .25, -.25, 30., -30., NAN, NAN])
            F[k] = v
            if name in m.ds:
                put(m, name, v)
        L = {}
        for k, name in (("s", "strat_frac_subcolumns_cl"), ("c", "conv_frac_subcolumns_cl")):
            L[k] = np.array([rng.randrange(2) for _ in range(N * T * H)]).reshape(shape).astype(float)
            if name in m.ds:
                put(m, name, L[k])
        for n in ("sub_col_Ze_tot", "sub_col_Ze_tot_strat", "detect_mask"):
            if n in m.ds:        # must not matter
                put(m, n, np.full(shape, rng.choice([-80., 40.])))
        nan = rng.random() < .5
        z = m.ds[m.z_field].values
        r = None
        if rng.random() < .6:
            zz = sorted(set(z.ravel()))
            r = sorted([rng.choice(zz + [0.]), rng.choice(zz + [zz[-1] + 1])])
            if rng.random() < .2:
                r = [r[0] + .001, r[1] + .001]
        kw = {}
        if nan or rng.random() < .5:
            kw["convert_zeros_to_nan"] = nan
        if r is not None or rng.random() < .5:
            kw["mask_height_rng"] = r if r is None or rng.random() < .5 else tuple(r)
        s = snap(m)
        res, err = call(cf.radar_classify_phase, inst, m, **kw)
        nm = inst.instrument_str
        u = 1e-5 if km else 1e-3
        rec = {"err": err, "conv": bool(m.process_conv), "rng": [] if r is None else [int(round(v / u)) for v in r],
               "nan": nan, "cell": [], "changed": []}
        if not err:
            names = {"t": "phase_mask_%s_sounding_all_hyd" % nm}
            if m.process_conv:
                names.update(s="strat_phase_mask_%s_sounding" % nm, c="conv_phase_mask_%s_sounding" % nm)
            rec["changed"] = diff(res, s, names.values())
            M = {k: A(res, v) for k, v in names.items()}
            for idx in np.ndindex(shape):
                f = lambda k: fx(F[k][idx] * 4)
                rec["cell"].append({"z": int(round(z[idx[1:]] / u)), "zmin": fx(zmin[idx[1:]] * 4),
                                    "zs": f("s"), "zc": f("c"), "zt": f("t"),
                                    "cs": bool(L["s"][idx]), "cc": bool(L["c"][idx]),
                                    "ms": fx(M["s"][idx]) if "s" in M else SKIP,
                                    "mc": fx(M["c"][idx]) if "c" in M else SKIP, "mt": fx(M["t"][idx])})
            m = res
        out.append(("%s conv=%s range=%s nan=%s km=%s step=%d" % (nm, proc, r, nan, km, step), rec))
        if step == 3 and m.process_conv:
            m.process_conv = False
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 16)
    for x in ("KAZR", "WACR", "XSACR"):
        instrument(x)
    inv = ["Table", "Partition"]
    c.model("PhaseRadarMC", dict(H=1 if not vlib.THOROUGH else 2, E=1, Bug='"none"'), inv, deadlock=False, workers=8)
    if not vlib.THOROUGH:
        c.model("PhaseRadarMC", dict(H=1, E=3, Bug='"none"'), inv, deadlock=False, workers=8)
    for bug in ("swap", "and"):
        c.model("PhaseRadarMC", dict(H=1, E=1, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)
    traces = [t for r in vlib.pmap(job, range(150 if vlib.THOROUGH else 24)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl, f in (("stratiform_class", "ms"), ("convective_class", "mc"), ("combined_class", "mt"), ("combined_class", "mt")):
        t = copy.deepcopy(rng.choice([t for t in good if t["conv"]]))
        x = rng.choice(t["cell"])
        x[f] = rng.choice([v for v in (0, 1, 2, 3, NNAN) if v != x[f]])
        corrupt.append((cl, t))
    t = copy.deepcopy(rng.choice(good))
    t["changed"] = ["t"]
    corrupt.append(("nothing_else_changes", t))
    c.validate("PhaseRadarTrace", traces, corrupt, workers=8)
