"""C12 composition, attenuation and detectability of radar reflectivities (spec/RadarZ.tla)."""
import random

from radar import *
from emc2.simulator.attenuation import calc_radar_Ze_min


def job(item, rng):
    route, fam, mie, rep = item
    N, T, H = rng.choice([1, 3]), 2, rng.choice([4, 5, 6])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < 0.7
    ri, li = rng.choice(["KAZR", "WACR", "XSACR", "CSAPR", "NEXRAD"]), rng.choice(["HSRL", "RL"])
    inst = instrument(ri)
    zkm = rng.random() < .3
    d = "%s %s mie=%s conv=%s %s%s" % (route, fam, mie, proc, ri, " km" if zkm else "")
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=0.6, heavy=rng.random() < .4), N,
                  route != "micro", rng.randrange(10**6))
    if err:
        return [(d, {"err": err, "conv": proc, "cell": [], "twin": [], "zmin1": 0, "lref": 0})]
    if zkm:
        m.ds["z"] = m.ds["z"] / 1000.
        m.ds["z"].attrs["units"] = "km"
    out = []
    for step in range(3):
        hyd = list(m.hyd_types) if step == 0 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
        sfc = rng.random() < .5
        ref = rng.choice([1000, 1000, 500, 5000])
        if step == 2 and m.process_conv:
            m.process_conv = False

        def go():
            r = sim_radar(clone(m), inst, route, sfc, mie, hyd)
            r = calc_radar_Ze_min(inst, r, ref)
            r = rm.calc_total_reflectivity(r, detect_mask=True)
            tw = z_twin(m, inst, instrument(li), route, mie, hyd, "strat") if step == 0 else []
            return r, tw
        r, err = call(go, timeout=120)
        if step == 1 and not err:
            m = r[0]                    # later calculations start from the objects with results
        out.append((d + " hyd=%s sfc=%s ref=%s step=%d" % (hyd, sfc, ref, step),
                    {"err": err, "conv": bool(m.process_conv), "cell": [] if err else z_cells(r[0], hyd),
                     "twin": [] if err else r[1], "zmin1": dbf(inst.Z_min_1km), "lref": dbf(20 * math.log10(ref))}))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 12)
    for x in ("HSRL", "RL", "KAZR", "WACR", "XSACR", "CSAPR", "NEXRAD"):
        instrument(x)
    traces = [t for r in vlib.pmap(job, items(12 if vlib.THOROUGH else 2)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    c.info["twin_points"] = sum(len(t["twin"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl in ("type_total_is_class_sum", "attenuated_type", "total_is_both_clouds", "attenuated_total",
               "detectability_mask", "minimum_follows_range", "reflectivity_follows_backscatter"):
        for _ in range(3):
            t = copy.deepcopy(rng.choice([t for t in good if (t["twin"] or cl[0] != "r")]))
            sig = [x for x in t["cell"] if x["strat"]["ze"] != NNAN]
            if not sig:
                continue
            x = rng.choice(sig)
            if cl == "type_total_is_class_sum":
                x["strat"]["tot"] = x["strat"]["tot"] + 1000
            elif cl == "attenuated_type":
                x["strat"]["zatt"] = rng.choice([x["strat"]["zatt"] - 20, NNAN])
            elif cl == "total_is_both_clouds":
                x["tot"]["tot"] = rng.choice([x["tot"]["tot"] - 1000, NNAN])
            elif cl == "attenuated_total":
                x["tot"]["zatt"] += 30
            elif cl == "detectability_mask":
                x["tot"]["mask"] ^= 1
            elif cl == "minimum_follows_range":
                x["zmin"] += 10
            else:
                y = rng.choice(t["twin"])
                y["z"] = y["z"] + 400 if y["b"] != NZERO else 0
            corrupt.append((cl, t))
    c.validate("RadarZTrace", traces, corrupt, workers=8)
