"""C15 lidar phase classification (spec/PhaseLidar.tla)."""
import random

from craft import *

NAN = float("nan")


def custom(rng):
    """A user table: few classes, arbitrary curves (log10 interpolated), numbered in any order."""
    n = rng.randint(1, 4)
    inds = rng.sample(range(1, n + 1), n)
    out = []
    for i in range(n):
        xs = sorted(rng.sample(range(0, 100), rng.randint(2, 4)))
        out.append({"class": "class%d" % inds[i], "class_ind": inds[i], "LDR": [x / 100. for x in xs],
                    "beta_p": [10 ** (rng.randrange(-70, -20) / 10.) for _ in xs]})
    return out


def ints(cs):
    return [{"ind": c["class_ind"], "x": [int(round(v * 1e6)) for v in c["LDR"]],
             "y": [int(round(math.log10(v) * 1e5)) for v in c["beta_p"]]} for c in cs]


def points(rng, cs, shape):
    """LDR and backscatter, often on or next to a curve."""
    L, B = np.zeros(shape), np.zeros(shape)
    for idx in np.ndindex(shape):
        c = rng.choice(cs)
        k = rng.randrange(len(c["LDR"]))
        x = rng.choice([c["LDR"][k], c["LDR"][k], rng.randrange(0, 5000) / 1e4, rng.randrange(0, 2500) / 1e4, 0., 1.])
        y = rng.choice([c["beta_p"][k]] * 3 + [10 ** (rng.randrange(-7000, -2000) / 1000.)] * 3)
        y = y * rng.choice([1., 1., 1., 1.01, 0.99])
        r = rng.random()
        if r < .1:
            x, y = NAN, 0.
        elif r < .15:
            y = rng.choice([NAN, 0.])
        L[idx], B[idx] = x, y
    return L, B


def job(i, rng):
    N, T, H = rng.choice([1, 3]), rng.choice([1, 3]), rng.choice([3, 5])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < .7
    out = []
    m, err = base(rng, N, T, H, proc)
    empty = {"conv": proc, "cs": [], "ext": 0, "remove": False, "nan": False, "cell": [], "changed": [],
             "refuse": False, "legend": True}
    if err:
        return [("setup", dict(empty, err=err))]
    for step in range(5):
        inst = copy.copy(instrument(rng.choice(["HSRL", "RL", "1064nm", "CEIL"])))
        given = rng.random() < .5
        cs = custom(rng) if given else copy.deepcopy(inst.beta_p_phase_thresh)
        kw = {"beta_p_phase_thresh": copy.deepcopy(cs)} if given else {}
        if rng.random() < .3:
            inst.ext_OD = rng.choice([1., 2.25])
        refuse = not cs
        if not refuse and not given and rng.random() < .3:   # defaults changed by the user
            cs = custom(rng)
            inst.beta_p_phase_thresh = copy.deepcopy(cs)
        nan, rem = rng.random() < .5, rng.random() < .6
        if nan or rng.random() < .5:
            kw["convert_zeros_to_nan"] = nan
        if not rem or rng.random() < .5:
            kw["remove_sub_detect"] = rem
        shape = (N, T, H)
        P = {}
        for tag, l, b, o in (("s", "sub_col_LDR_strat", "sub_col_beta_p_tot_strat", "sub_col_OD_tot_strat"),
                             ("c", "sub_col_LDR_conv", "sub_col_beta_p_tot_conv", "sub_col_OD_tot_conv"),
                             ("t", "sub_col_LDR_tot", "sub_col_beta_p_tot", "sub_col_OD_tot")):
            if l not in m.ds:
                continue
            L, B = points(rng, cs or custom(rng), shape)
            e = inst.ext_OD if np.isfinite(inst.ext_OD) else 4.
            D = np.array([rng.choice([0., e, e + .25, e - .25, e + 3]) for _ in range(N * T * H)]).reshape(shape)
            P[tag] = L, B, D
            put(m, l, L), put(m, b, B), put(m, o, D)
        s = snap(m)
        cs0 = copy.deepcopy(inst.beta_p_phase_thresh)
        r, err = call(cf.lidar_classify_phase, inst, m, **kw)
        nm = inst.instrument_str
        d = "%s conv=%s custom=%s nan=%s remove=%s step=%d" % (nm, proc, given, nan, rem, step)
        ext = fx(inst.ext_OD * 4)
        rec = dict(empty, err=err, conv=bool(m.process_conv), cs=ints(cs), ext=ext, remove=rem, nan=nan, cell=[],
                   changed=[], refuse=refuse)
        if not err:
            names = {"t": "phase_mask_%s_all_hyd" % nm}
            if r.process_conv:
                names.update(s="strat_phase_mask_%s" % nm, c="conv_phase_mask_%s" % nm)
            rec["changed"] = diff(r, s, names.values())
            if inst.beta_p_phase_thresh != cs0:
                rec["changed"].append("instrument thresholds")
            M = {k: A(r, v) for k, v in names.items()}
            leg = [list(r.ds[v].attrs["legend"]) for v in names.values()]
            rec["legend"] = all(l[c["class_ind"] - 1] == c["class"] for l in leg for c in cs)
            for idx in np.ndindex(shape):
                p, mm = [], []
                for k in "sct":
                    if k in names:
                        L, B, D = (v[idx] for v in P[k])
                        y = NNAN if not B > 0 else int(round(math.log10(B) * 1e5))
                        p.append([fx(L, 1e-6), y, fx(D * 4)])
                        mm.append(fx(M[k][idx]))
                    else:
                        p.append([]), mm.append(0)
                rec["cell"].append({"p": p, "m": mm})
            m = r
        out.append((d, rec))
        if step == 3 and m.process_conv:
            m.process_conv = False
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 15)
    for x in ("HSRL", "RL", "1064nm", "CEIL", "KAZR"):
        instrument(x)
    inv = ["Last", "Agrees", "InRange", "Mul"]
    k = dict(X=3, Y=3, NC=2, Bug='"none"')
    c.model("PhaseLidarMC", k, inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("PhaseLidarMC", dict(k, X=2, Y=2, NC=3), inv, deadlock=False, workers=8)
        c.model("PhaseLidarMC", dict(k, X=5, Y=5), inv, deadlock=False, workers=8)
    for bug in ("first", "strict", "order"):
        c.model("PhaseLidarMC", dict(k, X=2, Y=2, Bug='"%s"' % bug), ["Last"], expect="Last", deadlock=False, workers=4)
    traces = [t for r in vlib.pmap(job, range(160 if vlib.THOROUGH else 24)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl, j in (("stratiform_class", 0), ("convective_class", 1), ("combined_class", 2), ("combined_class", 2)):
        t = copy.deepcopy(rng.choice([t for t in good if t["cell"][0]["p"][j]]))
        x = rng.choice(t["cell"])
        x["m"][j] = 9
        corrupt.append((cl, t))
    t = copy.deepcopy(rng.choice(good))
    t["legend"] = False
    corrupt.append(("legend_names_classes", t))
    t = copy.deepcopy(rng.choice(good))
    t["changed"] = ["t"]
    corrupt.append(("nothing_else_changes", t))
    t = copy.deepcopy(rng.choice(good))
    t["refuse"] = True
    corrupt.append(("refused_without_thresholds", t))
    c.validate("PhaseLidarTrace", traces, corrupt, workers=8)
