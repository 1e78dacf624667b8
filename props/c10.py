"""C10 lidar optical depth and attenuated backscatter along the beam (spec/Beam.tla)."""
import random

from beams import *


def design(c):
    inv = ["Closed", "Monotone", "Causal", "BothSides", "MaskShape"]
    k = dict(H=4, A=1, Z=2, Classes='{"x","y"}', Thr=1, Bug='"none"')
    c.model("BeamMC", k, inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("BeamMC", dict(k, H=5, A=2, Classes='{"x"}', Thr=2), inv, deadlock=False, workers=8)
        c.model("BeamMC", dict(k, H=5, Z=3), inv, deadlock=False, workers=8)
    small = dict(k, H=3)
    for bug in ("own", "end", "grid"):
        c.model("BeamMC", dict(small, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)


def job(item, rng):
    (route, fam, mie, sfc), rep = item
    N, T, H = rng.choice([1, 3]), 2, rng.choice([4, 6, 7])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < 0.7
    d = "%s %s mie=%s sfc=%s conv=%s" % (route, fam, mie, sfc, proc)
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=0.6), N, route != "micro", rng.randrange(10**6))
    if err:
        return [(d, {"err": err, "prof": []})]
    out = []
    inst = instrument(rng.choice(["HSRL", "CEIL", "RL"]))
    for step in range(2):
        eta10 = rng.choice([10, 10, 7, 4, 6])
        if step:                 # the same objects, looking the other way
            sfc = not sfc
        r, err = call(simulate_lidar, m, inst, route, sfc, eta10 / 10., None, mie)
        out.append((d + " %s eta=%s step=%d" % (inst.instrument_str, eta10, step),
                    {"err": err, "prof": [] if err else beam_profiles(r, m.hyd_types, sfc, eta10)}))
    return out


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 10)
    for x in ("HSRL", "CEIL", "RL", "KAZR"):
        instrument(x)
    design(c)
    traces = [t for r in vlib.pmap(job, scenes(rng, 12 if vlib.THOROUGH else 1)) for t in r]
    c.info["profiles"] = sum(len(t["prof"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["prof"]]
    corrupt = []
    for cl in ("depth_follows_extinction", "first_layer_has_no_depth", "molecular_transmittance",
               "attenuated_backscatter", "depth_never_decreases"):
        for _ in range(2):
            t = copy.deepcopy(rng.choice(good)) if good else None
            if not t:
                continue
            ps = [p for p in t["prof"] if p["par"]]
            p = rng.choice(ps)
            i = rng.randrange(1, len(p["z"]))
            q = rng.choice(p["par"])
            if cl == "depth_follows_extinction":
                q["od"][i] += 20000
            elif cl == "first_layer_has_no_depth":
                q["od"] = [x + 7 for x in q["od"]]
            elif cl == "depth_never_decreases":
                q["od"][i] = q["od"][i - 1] - 1
            elif cl == "molecular_transmittance":
                p["mol"]["lt"][i] -= 60
            else:
                s = rng.choice(p["sig"])
                for j in range(len(s["la"])):
                    s["la"][j] += 200
            corrupt.append((cl, t))
    c.validate("LidarBeamTrace", traces, corrupt, workers=8)
