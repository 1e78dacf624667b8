"""C18 phase ratios (spec/Ratio.tla)."""
import random

from craft import *

NAN = float("nan")


def job(i, rng):
    N, T, H = rng.choice([1, 3, 4]), rng.choice([1, 2]), rng.choice([3, 5])
    many = i % 5 == 4                                    # many subcolumns: frequencies only (sums stay within TLC's integers)
    if many:
        N, T, H = rng.choice([130, 200, 300]), 1, 3
    proc = rng.random() < .7
    fam = rng.choice(["ModelE", "ModelE", "P3"])
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=.6), N, True, rng.randrange(10**6))
    empty = {"kind": "frequency", "num": [], "den": [], "cell": [], "changed": []}
    if err:
        return [("setup", dict(empty, err=err))]
    out = []
    shape = (N, T, H)
    dims = m.ds["strat_frac_subcolumns_cl"].dims
    for step in range(8):
        r = rng.random()
        vals = [0, 0, 1, 2, 3, 4] if r < .6 else [0, NAN, 1, 2] if r < .8 else [NAN, 2] if r < .9 else [0]
        if many and rng.random() < .7:                   # one class fills most of the cell: counts beyond one byte
            vals = vals + [rng.choice([1, 2, 3, 4])] * rng.choice([10, 30])
        mk = np.array([rng.choice(vals) for _ in range(N * T * H)], float).reshape(shape)
        if not np.isnan(mk).any() and rng.random() < .5:
            mk = mk.astype(np.uint8)
        v = "my_mask"
        m.ds[v] = xr.DataArray(mk, dims=dims if rng.random() < 2 else dims)
        kind = rng.choice(["frequency"] * 3 + ["subcolumns"] * 2 + ["model"]) if not many else "frequency"
        num = rng.sample([1, 2, 3, 4], rng.randint(1, 2))
        den = [] if rng.random() < .4 else sorted(set(rng.sample([1, 2, 3, 4], rng.randint(1, 4))) |
                                                 (set(num) if rng.random() < .7 else set()))
        hyd = None if rng.random() < .5 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
        cls = num[0] if len(num) == 1 and rng.random() < .6 else list(num)
        kw = {} if hyd is None else {"hyd_types": list(hyd)}
        q = {}
        if kind != "frequency":
            kw["mass_pr"] = True
            for x in m.hyd_types:
                for cl in clouds(m):
                    a = np.array([rng.choice([0, 0, 1, 5, rng.randrange(60)]) for _ in range(N * T * H)]).reshape(shape)
                    q[cl, x] = a
                    d = "%s_q_subcolumns_%s" % (cl, x)
                    m.ds[d].values[:] = a * 1e-6
                a = np.array([rng.choice([0, 0, 1, rng.randrange(60)]) for _ in range(T * H)]).reshape(shape[1:])
                q["in", x] = a
                m.ds[m.q_names_stratiform[x]].values[:] = a * 1e-6
            if kind == "subcolumns":
                kw["mpr_subcolmod"] = True
        elif den:
            kw["mask_allhyd"] = den[0] if len(den) == 1 and rng.random() < .5 else list(den)
        s = snap(m)
        res, err = call(cf.calculate_phase_ratio, m, v, cls, **kw)
        new = [v + "_fpr", v + "_mpr", v + "_mpr_sum", "mpr_q"]
        d = "%s %s conv=%s num=%s den=%s hyd=%s dtype=%s N=%d" % (fam, kind, m.process_conv, cls, den, hyd, mk.dtype, N)
        rec = dict(empty, err=err, kind=kind, num=num, den=den, cell=[], changed=[])
        if not err:
            rec["changed"] = diff(res, s, new)
            use = hyd or m.hyd_types
            ice = [x for x in m.hyd_types if x not in ("cl", "pl")]
            add = lambda t, c, idx: int(sum(q[cl, x][idx] for cl in c for x in t if x in use))
            for t, k in np.ndindex(shape[1:]):
                c = {"m": fxs(mk[:, t, k])}
                if kind == "frequency":
                    c["r"] = fx(A(res, v + "_fpr")[t, k], 1e-6)
                elif kind == "subcolumns":
                    c["l"] = [add(("cl", "pl"), clouds(m), (n, t, k)) for n in range(N)]
                    c["i"] = [add(ice, clouds(m), (n, t, k)) for n in range(N)]
                    c["rs"] = fxs(A(res, v + "_mpr")[:, t, k], 1e-6)
                    c["r"] = fx(A(res, v + "_mpr_sum")[t, k], 1e-6)
                else:
                    c["l"], c["i"] = [add(("cl", "pl"), ["in"], (t, k))], [add(ice, ["in"], (t, k))]
                    c["r"] = fx(A(res, "mpr_q")[t, k], 1e-6)
                rec["cell"].append(c)
            m = res
        out.append((d, rec))
        if step == 5 and m.process_conv:
            m.process_conv = False
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 18)
    instrument("KAZR")
    inv = ["Counts", "Bounded", "Total"]
    c.model("RatioMC", dict(N=4 if not vlib.THOROUGH else 5, V=2 if not vlib.THOROUGH else 3, Bug='"none"'), inv, deadlock=False, workers=8)
    for bug in ("zero", "narrow"):
        c.model("RatioMC", dict(N=2, V=2, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)
    traces = [t for r in vlib.pmap(job, range(150 if vlib.THOROUGH else 20)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl, kind in (("frequency_ratio_counts_subcolumns", "frequency"), ("mass_ratio_per_subcolumn", "subcolumns"),
                     ("mass_ratio_over_subcolumns", "subcolumns"), ("mass_ratio_of_the_model", "model"),
                     ("ratio_between_0_and_1", "frequency"), ("nothing_else_changes", "model")):
        t = copy.deepcopy(rng.choice([t for t in good if t["kind"] == kind and
                                      (cl[0] != "r" or set(t["num"]) <= set(t["den"]))]))
        x = rng.choice(t["cell"])
        if cl.endswith("per_subcolumn"):
            x["rs"][0] = 7 if x["rs"][0] != 7 else 99
        elif cl[0] == "n":
            t["changed"] = ["t"]
        else:
            x["r"] = 1000777
        corrupt.append((cl, t))
    c.validate("RatioTrace", traces, corrupt, workers=8)
