"""C19 signal exists exactly where hydrometeors exist (spec/Signal*.tla)."""
import random

from radar import *


def sign(x):
    x = float(x)
    return "n" if math.isnan(x) else "i" if math.isinf(x) else "0" if x == 0 else "+" if x > 0 else "-"


def dbs(x):
    x = float(x)
    return "n" if math.isnan(x) else "i" if math.isinf(x) else "f"


def craft_subcolumns(m, N, rng, fam, ref):
    """Subcolumns in every combination of clear, hollow and filled cells, at every level including the outermost."""
    for f in ref.ds.data_vars:
        if "_re_" in f or f[:3] in ("mu_", "lam"):
            m.ds[f].values[:] = ref.ds[f].values
    T, H = m.ds["strat_q_cl"].shape
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    for c in clouds(m):
        for x in m.hyd_types:
            q = m.ds["%s_q_%s" % (c, x)].values
            pat = np.array([[[rng.random() < rng.choice([0.1, .5, .9]) for _ in range(H)] for _ in range(T)]
                            for _ in range(N)])
            for _ in range(H):              # one subcolumn only, or all
                t, k = rng.randrange(T), rng.randrange(H)
                pat[:, t, k] = False
                pat[rng.randrange(N), t, k] = rng.random() < .7
            qs = np.where(q > 0, q, 10 ** rng.uniform(-6.5, -4.5))
            if fam == "P3" and x == "ci":
                pat &= (q > 0)
                qs = np.where(q > 0, q, 0)
            hollow = np.array([[[rng.random() < .15 for _ in range(H)] for _ in range(T)] for _ in range(N)])
            if fam == "P3" and x == "ci":
                hollow[:] = False           # ice amount comes with the PSD of the cell there
            v = np.where(pat & ~hollow, qs * np.array([1 + .2 * i for i in range(N)])[:, None, None], 0.)
            dims = ("subcolumn", "time", "height")
            m.ds["%s_frac_subcolumns_%s" % (c, x)] = xr.DataArray(pat, dims=dims)
            m.ds["%s_q_subcolumns_%s" % (c, x)] = xr.DataArray(v, dims=dims)
            if c == "strat":
                n = m.ds["n_" + x].values * 10. ** -rng.choice([0, 0, 0, 3, 7])       # down to a few per cubic metre
                m.ds["strat_n_subcolumns_" + x] = xr.DataArray(np.where(pat, n, 0.), dims=dims)
            # where the class is absent from the whole cell, models give no sizes either
            absent = ~pat.any(axis=0)
            fill = rng.choice([0., np.nan, None])
            if fill is not None:
                for f in ["%s_re_%s" % (c, x)] + (["mu_" + x, "lam_" + x] if "mu_" + x in m.ds and
                                                  c == "strat" and not m.process_conv else []):
                    m.ds[f].values[absent] = fill


def state(m, c, x, hyd):
    if x not in hyd:
        return None
    f = A(m, "%s_frac_subcolumns_%s" % (c, x)).astype(bool)
    q = A(m, "%s_q_subcolumns_%s" % (c, x))
    return np.where(f & (q > 0), "mass", np.where(f, "hollow", "clear"))


def columns(m, kind, hyd):
    cl = clouds(m)
    S = {(c, x): state(m, c, x, hyd) for c in cl for x in hyd}
    N, T, H = S[cl[0], hyd[0]].shape
    g = lambda n: A(m, n)
    out = []
    if kind == "lidar":
        F = {(c, x): ([g("sub_col_beta_p_%s_%s" % (x, c)), g("sub_col_alpha_p_%s_%s" % (x, c))],
                      [g("sub_col_OD_%s_%s" % (x, c))]) for c in cl for x in list(hyd) + ["tot"]}
        F["all"] = [g("sub_col_beta_p_tot"), g("sub_col_alpha_p_tot")], [g("sub_col_OD_tot")]
        P = {c: [g("sub_col_beta_att_tot_" + c)] for c in cl}
        P["all"] = [g("sub_col_beta_att_tot")]
    else:
        F = {(c, x): [g("sub_col_Ze_%s_%s" % (x, c))] for c in cl for x in list(hyd) + ["tot"]}
        F["all"] = [g("sub_col_Ze_tot"), g("sub_col_Ze_att_tot")]
        P = {c: [g("hyd_ext_" + c)] for c in cl}
        P["all"] = []
        for c in cl:
            F[c, "tot"].append(g("sub_col_Ze_att_tot_" + c))
    for i in range(N):
        for t in range(T):
            for c in cl + (["all"]):
                ev = []
                xs = [(d, x) for d in cl for x in hyd] if c == "all" else [(c, x) for x in hyd]
                for k in range(H):
                    e = {"st": [str(S[y][i, t, k]) for y in xs], "lin": [], "acc": [], "db": [], "tlin": [], "tacc": [],
                         "tdb": [], "pos": [sign(a[i, t, k]) for a in P[c]]}
                    tot = F["all"] if c == "all" else F[c, "tot"]
                    for y in xs:
                        if kind == "lidar":
                            e["lin"].append([sign(a[i, t, k]) for a in F[y][0]])
                            e["acc"].append([sign(a[i, t, k]) for a in F[y][1]])
                            e["db"].append([])
                        else:
                            e["lin"].append([])
                            e["acc"].append([])
                            e["db"].append([dbs(a[i, t, k]) for a in F[y]])
                    if kind == "lidar":
                        e["tlin"] = [sign(a[i, t, k]) for a in tot[0]]
                        e["tacc"] = [sign(a[i, t, k]) for a in tot[1]]
                    else:
                        e["tdb"] = [dbs(a[i, t, k]) for a in tot]
                    ev.append(e)
                out.append(ev)
    return out


def job(item, rng):
    route, fam, mie, sfc, kind, rep = item
    N, T, H = rng.choice([1, 2, 4]), 2, rng.choice([3, 4, 6])
    N, T, H = big(rng, N, T, H)
    proc = fam != "P3" and rng.random() < .6
    # bulk tables of long-wave radars hold no backscatter (rounded to zero) for cloud-sized particles
    inst = rng.choice(["HSRL", "CEIL", "RL", "1064nm"]) if kind == "lidar" else rng.choice(
        ["KAZR", "WACR"] + (["XSACR", "NEXRAD"] if route == "empirical" or route == "micro" and not proc else []))
    d = "%s %s %s mie=%s sfc=%s %s conv=%s N=%d H=%d" % (kind, route, fam, mie, sfc, inst, proc, N, H)
    m = scene(rng, T, H, N, family=fam, proc=proc, dense=rng.choice([.4, .8]), heavy=rng.random() < .3)
    if fam != "ModelE":                     # size distributions inside the tabulated range
        for x in ("cl", "pl"):
            m.ds["mu_" + x].values[:] = rng.uniform(2.3, 14)
            m.ds["lam_" + x].values[:] = np.array([[10 ** rng.uniform(5.6, 6.1) for _ in range(H)] for _ in range(T)])
    ref = clone(m)
    craft_subcolumns(m, N, rng, fam, ref)
    hyd = list(m.hyd_types) if rng.random() < .5 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
    if fam in ("CESM", "P3") and "pl" in hyd and "cl" not in hyd:
        hyd = ["cl"] + hyd

    def go(m):
        if kind == "lidar":
            return simulate_lidar(m, instrument(inst), route, sfc, 1, hyd, mie)
        x = sim_radar(m, instrument(inst), route, sfc, mie, hyd)
        x = at.calc_radar_Ze_min(instrument(inst), x)
        return rm.calc_total_reflectivity(x, detect_mask=True)
    r, err = call(go, clone(m), timeout=120)
    if err:
        return [(d, {"err": err, "ev": [{}]})]
    out = [(d + " hyd=%s" % hyd, {"err": "", "ev": ev}) for ev in columns(r, kind, hyd)]
    if rng.random() < .5:                   # other subcolumns on the model that already holds results
        craft_subcolumns(r, N, rng, fam, ref)
        r2, err = call(go, r, timeout=120)
        out += [(d + " again", {"err": err, "ev": [{}]})] if err else \
            [(d + " again hyd=%s" % hyd, {"err": "", "ev": ev}) for ev in columns(r2, kind, hyd)]
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 19)
    for x in ("HSRL", "CEIL", "RL", "1064nm", "KAZR", "WACR", "XSACR", "NEXRAD"):
        instrument(x)
    n, h = (3, 3) if vlib.THOROUGH else (2, 3)
    c.model("SignalMC", dict(N=n, H=h, Bug='"none"'), ["SignalWhereMass"], deadlock=False, workers=8)
    for b in ("stale", "first", "edge", "hollow"):
        c.model("SignalMC", dict(N=2, H=2, Bug='"%s"' % b), ["SignalWhereMass"], expect="SignalWhereMass", deadlock=False)
    its = [(r, f, mie, sfc, k, i) for i in range(8 if vlib.THOROUGH else 1) for r, f, mie, sfc in routes(rng)
           for k in ("lidar", "radar")]
    traces = [t for r in vlib.pmap(job, its) for t in r]
    c.info["columns"] = len(traces)
    c.info["cells"] = sum(len(t["ev"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"]]
    corrupt = []
    for cl in ("class_signal_iff_class_mass", "total_signal_iff_any_mass", "accumulated_finite_nonnegative",
               "transmitted_positive_finite"):
        for _ in range(4):
            t = copy.deepcopy(rng.choice(good))
            e = rng.choice(t["ev"])
            lid = bool(e["tlin"])
            if cl[0] == "c":
                i = rng.randrange(len(e["st"]))
                if lid:
                    e["lin"][i][0] = "0" if e["lin"][i][0] == "+" else rng.choice("+n")
                else:
                    e["db"][i][0] = "n" if e["db"][i][0] == "f" else rng.choice("fi")
            elif cl[:2] == "to":
                key = "tlin" if lid else "tdb"
                e[key][-1] = {"+": "0", "0": "n", "f": "n", "n": "i"}[e[key][-1]]
            elif cl[0] == "a":
                if not lid:
                    continue
                e["tacc"][0] = rng.choice("-ni")
            else:
                if not e["pos"]:
                    continue
                e["pos"][0] = rng.choice("-ni0")
            corrupt.append((cl, t))
    c.validate("SignalTrace", traces, corrupt, workers=8)
