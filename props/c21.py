"""C21 restricting hydrometeor classes equals removing the others (spec/Subset*.tla)."""
import random

from radar import *
from digest import Interner

RES = ("sub_col_", "hyd_ext_", "ext_mask", "detect_mask", "strat_COSP", "conv_COSP", "COSP")


def results(m):
    return [f for f in m.ds.data_vars if f.startswith(RES) or "COSP" in f]


def of_class(f, classes):
    """The class a field belongs to, if any."""
    for c in ("strat", "conv"):
        for x in classes:
            if f.endswith("_%s_%s" % (x, c)):
                return x
    return None


def job(item, rng):
    route, fam, mie, sfc, kind, onecall, rep = item
    N, T, H = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([4, 5])
    proc = fam != "P3" and rng.random() < .6
    iname = "HSRL" if kind == "lidar" else rng.choice(["KAZR", "WACR"])
    inst = instrument(iname)
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=.7, heavy=True), N, route != "micro",
                  rng.randrange(10 ** 6))
    classes = list(m.hyd_types) if not err else []
    d = "%s %s %s mie=%s sfc=%s %s conv=%s onecall=%s" % (kind, route, fam, mie, sfc, iname, proc, onecall)
    if err:
        return d, {"ev": [{"kind": "res", "err": err, "f": {}, "rest0": {}, "rest": {}}]}
    own_psd = fam == "ModelE" or rng.random() < .5
    if not own_psd:
        m.lambda_field["pl"] = m.mu_field["pl"] = None
    hyd = rng.sample(classes, rng.randint(1, len(classes) - 1))
    d += " hyd=%s%s" % (hyd, "" if own_psd else " no PSD of rain")
    ids = Interner()
    eta = rng.choice([1, .7])

    def sim(m, h):
        if onecall:
            kw = dict(eta=eta) if kind == "lidar" else {}
            return make_simulated_data(m, inst, N, do_classify=False, parallel=False, skip_subcol_gen=True, mie_for_ice=mie,
                                       OD_from_sfc=sfc, hyd_types=h, finalize_fields=False, **rkw(route), **kw)
        if kind == "lidar":
            m = simulate_lidar(m, inst, route, sfc, eta, h, mie)
            m = lm.calc_LDR_and_ext(m, 1.5, sfc, hyd_types=h)
            return cf.lidar_emulate_cosp_phase(inst, m, eta=eta, OD_from_sfc=sfc, hyd_types=h)
        m = sim_radar(m, inst, route, sfc, mie, h)
        m = at.calc_radar_Ze_min(inst, m)
        return rm.calc_total_reflectivity(m, detect_mask=True)

    def empty(m, fill):
        """The other classes hold nothing (or something else)."""
        for x in classes:
            if x in hyd:
                continue
            for c in clouds(m):
                for q in ("frac", "q", "n"):
                    f = "%s_%s_subcolumns_%s" % (c, q, x)
                    if f in m.ds:
                        m.ds[f].values[:] = 0 if fill is None else m.ds[f].values * fill
        return m

    def rec(k, m0, h):
        own = None
        rest0 = {f: ids("r:" + f, A(m0, f)) for f in results(m0) if of_class(f, classes) not in (None, *hyd)}
        r, err = call(sim, clone(m0), h, timeout=120)
        if err:
            return {"kind": k, "err": err, "f": {}, "rest0": {}, "rest": {}}
        f = {x: ids("f:" + x, A(r, x)) for x in results(r) if of_class(x, classes) in (None, *hyd)}
        rest = {} if k == "zero" else {x: ids("r:" + x, A(r, x)) for x in results(r)
                                       if of_class(x, classes) not in (None, *hyd)}
        return {"kind": k, "err": "", "f": f, "rest0": {} if k == "zero" else rest0, "rest": rest}

    ev = [rec("res", m, hyd)]
    p = hyd[::-1] if len(hyd) > 1 else hyd
    ev.append(rec("perm", m, p))
    ev.append(rec("zero", empty(clone(m), None), classes if rng.random() < .6 else rng.sample(classes, len(classes))))
    ev.append(rec("other", empty(clone(m), rng.choice([0, 3.])), hyd))
    full, err = call(sim, clone(m), classes, timeout=120)
    ev.append({"kind": "over", "err": err, "f": {}, "rest0": {}, "rest": {}} if err else rec("over", full, hyd))
    return d, {"ev": ev}


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 21)
    for x in ("HSRL", "KAZR", "WACR"):
        instrument(x)
    k = dict(Classes="{1, 2, 3}", MaxV=2 if vlib.THOROUGH else 1)
    inv = ["SubsetIsZeroed", "ClassFields", "OthersUntouched"]
    c.model("SubsetMC", dict(k, Bug='"none"'), inv, deadlock=False, workers=8)
    for b, w in (("leak", "any"), ("fields", "SubsetIsZeroed"), ("touch", "OthersUntouched")):
        c.model("SubsetMC", dict(k, MaxV=1, Bug='"%s"' % b), inv, expect=w, deadlock=False, workers=4)
    its = [(r, f, mie, sfc, kd, o, i) for i in range(10 if vlib.THOROUGH else 1) for r, f, mie, sfc in routes(rng)
           for kd in ("lidar", "radar") for o in (False, True)]
    traces = vlib.pmap(job, its)
    c.info["calculations"] = sum(len(t["ev"]) for _, t in traces)
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []
    for cl, kd in (("restricted_is_others_zeroed", "zero"), ("order_of_classes_irrelevant", "perm"),
                   ("other_classes_do_not_matter", "other"), ("earlier_results_do_not_matter", "over"),
                   ("unrequested_untouched", "over")):
        for _ in range(3):
            t = copy.deepcopy(rng.choice(good))
            e = [e for e in t["ev"] if e["kind"] == kd][0]
            w = e["rest"] if cl[0] == "u" else e["f"]
            x = rng.choice(sorted(w))
            if rng.random() < .7:
                w[x] = 10 ** 6
            else:
                del w[x]
            corrupt.append((cl, t))
    c.validate("SubsetTrace", traces, corrupt, workers=8)
