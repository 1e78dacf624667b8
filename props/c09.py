"""C09 lidar totals are the sum of their parts (spec/LidarSum.tla)."""
import random

from beams import *


def job(item, rng):
    (route, fam, mie, sfc), rep = item
    N, T, H = rng.choice([1, 3]), 2, rng.choice([4, 6])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < 0.7
    d = "%s %s mie=%s sfc=%s conv=%s" % (route, fam, mie, sfc, proc)
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=0.6), N, route != "micro", rng.randrange(10**6))
    if err:
        return [(d, {"err": err, "conv": proc, "cell": []})]
    out = []
    inst = instrument(rng.choice(["HSRL", "CEIL", "RL"]))
    for step in range(3):
        hyd = list(m.hyd_types) if step == 0 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
        dd = d + " %s hyd=%s" % (inst.instrument_str, hyd)
        if step == 2 and m.process_conv:      # convection simulated before but not processed any more
            m.process_conv = False
            dd += " after switching convection off"
        r, err = call(simulate_lidar, m, inst, route, sfc, rng.choice([1, 0.7]), hyd, mie)
        out.append((dd, {"err": err, "conv": bool(m.process_conv), "cell": [] if err else sum_cells(r, hyd)}))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 9)
    for x in ("HSRL", "CEIL", "RL", "KAZR"):
        instrument(x)
    traces = [t for r in vlib.pmap(job, scenes(rng, 12 if vlib.THOROUGH else 1)) for t in r]
    c.info["cells"] = sum(len(t["cell"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["cell"]]
    corrupt = []
    for cl, part, f in (("class_backscatter_adds_up", "strat", "tb"), ("class_extinction_adds_up", "strat", "ta"),
                        ("class_depth_adds_up", "strat", "to"), ("total_backscatter_is_both_clouds", "tot", "b"),
                        ("total_extinction_is_both_clouds", "tot", "a"), ("total_depth_is_both_clouds", "tot", "o")):
        for _ in range(2):
            t = copy.deepcopy(rng.choice(good)) if good else None
            if t:
                rng.choice(t["cell"])[part][f] += 100 * rng.choice([1, -1])
                corrupt.append((cl, t))
    c.validate("LidarSumTrace", traces, corrupt, workers=8)
