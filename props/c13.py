"""C13 the lidar extinction mask (spec/Beam.tla LossMask, LossTrace.tla)."""
import random

from craft import *


def depths(rng, H, thr):
    """Optical depths along a beam in quarters (exact in binary): monotone, at the threshold, or arbitrary."""
    k = rng.randrange(5)
    if k == 0:
        return [0.] * H
    if k == 1:
        return list(np.cumsum([0.] + [rng.choice([0, 0, .25, 1., 2.5]) for _ in range(H - 1)]))
    if k == 2:       # reaches the threshold exactly, then stays or exceeds it
        j = rng.randrange(H)
        return [0.] * j + [thr] * (H - j) if rng.random() < .5 else [0.] * j + [thr] + [thr + .25] * (H - j - 1)
    if k == 3:       # lost at once, or only in the last layer
        return rng.choice([[thr + 1] * H, [0.] * (H - 1) + [thr + .25]])
    return [rng.choice([0., thr, thr + .25, thr - .25 if thr > 0 else 0., 2 * thr + .5]) for _ in range(H)]


def job(i, rng):
    N, T, H = rng.choice([1, 3, 4]), rng.choice([1, 3]), rng.choice([3, 5, 7])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < .7
    inst = instrument(rng.choice(["HSRL", "CEIL"]))
    m, err = base(rng, N, T, H, proc, inst=inst)
    out = []
    if err:
        return [("setup", {"err": err, "thr": 0, "beam": [], "changed": []})]
    for step in range(6):
        sfc, thr = rng.random() < .5, rng.choice([4., 4., 2.5, 0.25, 1., 0., 6.75])
        d = "conv=%s sfc=%s ext_OD=%s N=%d step=%d" % (proc, sfc, thr, N, step)
        od = np.array([[beam(depths(rng, H, thr), sfc) for _ in range(T)] for _ in range(N)])
        put(m, "sub_col_OD_tot", od)
        for x in ("sub_col_OD_tot_strat", "sub_col_OD_tot_conv", "sub_col_beta_p_tot", "sub_col_alpha_p_tot"):
            if x in m.ds:      # must not matter
                put(m, x, np.array([[[rng.choice([0, 1, 9.]) for _ in range(H)] for _ in range(T)] for _ in range(N)]))
        s = snap(m)
        kw = {"OD_from_sfc": sfc} if not sfc or rng.random() < .7 else {}
        if thr != 4. or rng.random() < .5:
            kw["ext_OD"] = thr
        if rng.random() < .3:
            kw["hyd_types"] = rng.sample(m.hyd_types, 2)
        r, err = call(lm.calc_LDR_and_ext, m, **kw)
        rec = {"err": err, "thr": int(thr * 4), "beam": [], "changed": []}
        if not err:
            mk = A(r, "ext_mask")
            rec["changed"] = diff(r, s, ("ext_mask", "sub_col_LDR_strat", "sub_col_LDR_conv", "sub_col_LDR_tot"))
            rec["beam"] = [{"od": [int(v * 4) for v in beam(od[n, t], sfc)], "mask": fxs(beam(mk[n, t], sfc))}
                           for n in range(N) for t in range(T)]
            m = r
        out.append((d, rec))
    # the threshold and direction of the one-call simulation
    inst2 = instrument(rng.choice(["HSRL", "CEIL", "RL"]))
    ext = rng.choice([None, 1., 0.25])
    sfc = rng.choice([True, False, None])
    kw = {}
    if ext is not None:
        kw["ext_OD"] = ext
    if sfc is not None:
        kw["OD_from_sfc"] = sfc
    x = copy.copy(inst2)
    if rng.random() < .5 or not np.isfinite(x.ext_OD):
        x.ext_OD = rng.choice([0.5, 2., 3.5])
    if not np.isfinite(x.eta):
        x.eta = 1.
    if sfc is None:
        x.OD_from_sfc = rng.random() < .5
    m2 = scene(rng, 2, 6, 2, proc=proc, dense=.8, heavy=True)
    r, err = call(make_simulated_data, m2, x, 2, parallel=False, **kw)
    thr = x.ext_OD if ext is None else ext
    rec = {"err": err, "thr": int(thr * 100000), "beam": [], "changed": []}
    if not err:
        up = x.OD_from_sfc if sfc is None else sfc
        od, mk = A(r, "sub_col_OD_tot"), A(r, "ext_mask")
        rec["beam"] = [{"od": fxs(beam(od[n, t], up), 1e-5), "mask": fxs(beam(mk[n, t], up))}
                       for n in range(2) for t in range(2)
                       if not np.any(np.abs(od[n, t] - thr) < 1e-4)]
    out.append(("one-call %s ext=%s sfc=%s" % (x.instrument_str, ext, sfc), rec))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 13)
    for x in ("HSRL", "CEIL", "RL", "KAZR"):
        instrument(x)
    inv = ["Closed", "Monotone", "Causal", "BothSides", "MaskShape"]
    for H, thr in (((4, 1), (4, 2), (5, 0)) if vlib.THOROUGH else ((4, 1), (3, 0))):
        c.model("BeamMC", dict(H=H, A=1, Z=2, Classes='{"x"}', Thr=thr, Bug='"none"'), inv, deadlock=False, workers=8)
    traces = [t for r in vlib.pmap(job, range(120 if vlib.THOROUGH else 20)) for t in r]
    c.info["beams"] = sum(len(t["beam"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["beam"] and any(2 in b["mask"] for b in t["beam"])]
    corrupt = []
    for cl in ("extinct_where_depth_exceeds_threshold", "one_marks_last_layer_before_loss", "mask_values",
               "nothing_else_changes"):
        for _ in range(2):
            t = copy.deepcopy(rng.choice(good))
            b = rng.choice([b for b in t["beam"] if 2 in b["mask"]])
            if cl[0] == "e":
                j = rng.choice([j for j, x in enumerate(b["mask"]) if x == 2])
                b["mask"][j] = 0
            elif cl[0] == "o":
                b["mask"] = [1 if x == 0 else 0 if x == 1 else x for x in b["mask"]] if set(b["mask"]) != {2} else [1] * len(b["mask"])
            elif cl[0] == "m":
                b["mask"][0] = 3
            else:
                t["changed"] = ["sub_col_OD_tot"]
            corrupt.append((cl, t))
    c.validate("LossTrace", traces, corrupt, workers=8)
