"""C14 linear depolarization ratio (spec/Depol.tla)."""
import random

from craft import *

NAN = float("nan")


def job(i, rng):
    N, T, H = rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([3, 5])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < .7
    m, err = base(rng, N, T, H, proc, family=rng.choice(["ModelE", "ModelE", "P3"]))
    if err:
        return [("setup", {"err": err, "conv": False, "tab": [], "cell": [], "changed": []})]
    out = []
    for step in range(6):
        hyd = list(m.hyd_types) if rng.random() < .4 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
        nan = rng.random() < .4
        vals = {}
        unit = 10. ** rng.choice([-4, -7, -7, -10, -14, -17])       # however faint, it counts
        for cl in clouds(m):
            for x in m.hyd_types:
                v = np.array([[[rng.choice([0, 0, 1, 100, rng.randrange(101)] + ([NAN] if nan else []))
                                for _ in range(H)] for _ in range(T)] for _ in range(N)], float)
                vals[cl, x] = v
                put(m, "sub_col_beta_p_%s_%s" % (x, cl), v * unit)
        for x in ("sub_col_beta_p_tot_strat", "sub_col_beta_p_tot_conv", "sub_col_beta_p_tot"):
            if x in m.ds:        # the classes count, not leftover totals
                put(m, x, np.full((N, T, H), rng.choice([0., 1e-5])))
        tab = {x: rng.randint(0, 100) for x in m.hyd_types}
        how = rng.choice(["arg", "arg", "model", "modelunits", "partial"])
        kw = {} if rng.random() < .2 and hyd == list(m.hyd_types) else {"hyd_types": list(hyd)}
        if how in ("arg", "partial"):
            arg = {x: tab[x] / 100. for x in (hyd if how == "partial" else m.hyd_types)}
            if rng.random() < .3:
                arg = {k: v * ureg.dimensionless for k, v in arg.items()}
            kw["LDR_per_hyd"] = arg
            m.LDR_per_hyd = {x: 0.77 * ureg.dimensionless for x in m.hyd_types}
        else:
            m.LDR_per_hyd = {x: v / 100. * (ureg.dimensionless if how == "modelunits" else 1) for x, v in tab.items()}
        before = {k: float(v) for k, v in (kw.get("LDR_per_hyd") or m.LDR_per_hyd).items()}
        sfc = rng.random() < .5
        s = snap(m)
        r, err = call(lm.calc_LDR_and_ext, m, OD_from_sfc=sfc, **kw)
        d = "conv=%s hyd=%s table=%s nan=%s step=%d" % (proc, hyd, how, nan, step)
        rec = {"err": err, "conv": bool(m.process_conv), "tab": [tab[x] for x in hyd], "cell": [], "changed": []}
        if not err:
            rec["changed"] = diff(r, s, ("ext_mask", "sub_col_LDR_strat", "sub_col_LDR_conv", "sub_col_LDR_tot"))
            if {k: float(v) for k, v in (kw.get("LDR_per_hyd") or r.LDR_per_hyd).items()} != before:
                rec["changed"].append("table")
            R = {k: A(r, "sub_col_LDR_" + k) for k in clouds(r) + ["tot"]}
            for idx in np.ndindex((N, T, H)):
                rec["cell"].append({"s": fxs([vals["strat", x][idx] for x in hyd]),
                                    "c": fxs([vals["conv", x][idx] for x in hyd]) if r.process_conv else [],
                                    "rs": fx(R["strat"][idx], 1e-6), "rt": fx(R["tot"][idx], 1e-6),
                                    "rc": fx(R["conv"][idx], 1e-6) if r.process_conv else NNAN})
            m = r
        out.append((d, rec))
        if step == 4 and m.process_conv:
            m.process_conv = False
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 14)
    for x in ("HSRL", "KAZR"):
        instrument(x)
    k = dict(NC=2, B=2, L=3, Bug='"none"') if not vlib.THOROUGH else dict(NC=3, B=2, L=2, Bug='"none"')
    c.model("DepolMC", k, ["Means", "Bounds"], deadlock=False, workers=8)
    for bug in ("last", "both"):
        c.model("DepolMC", dict(NC=2, B=1, L=2, Bug='"%s"' % bug), ["Means"], expect="Means", deadlock=False, workers=4)
    traces = [t for r in vlib.pmap(job, range(150 if vlib.THOROUGH else 20)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl, f in (("stratiform_ratio_is_weighted_mean", "rs"), ("convective_ratio_is_weighted_mean", "rc"),
                  ("combined_ratio_is_weighted_mean", "rt"), ("nothing_else_changes", None), ("ratio_between_classes", "rt")):
        for _ in range(2):
            t = copy.deepcopy(rng.choice([t for t in good if (f != "rc" or t["conv"]) and
                                          any(x["rt"] != NNAN and (f != "rc" or x["rc"] != NNAN) for x in t["cell"])]))
            if f:
                x = rng.choice([x for x in t["cell"] if x["rt"] != NNAN and x.get(f) != NNAN] or t["cell"])
                x[f] = rng.choice([NNAN, x[f] + 5]) if cl[0] != "r" else 1000005
            else:
                t["changed"] = ["q"]
            corrupt.append((cl, t))
    c.validate("DepolTrace", traces, corrupt, workers=8)
