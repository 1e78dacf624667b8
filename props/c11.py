"""C11 radar attenuation along the beam (spec/Beam.tla, RadarBeamTrace.tla)."""
import random

from radar import *


def job(item, rng):
    route, fam, mie, rep = item
    N, T, H = rng.choice([1, 2]), 2, rng.choice([4, 5, 6])
    N, T, H = big(rng, N, T, H)
    proc = rng.random() < 0.7
    ri, li = rng.choice(["KAZR", "WACR"]), rng.choice(["HSRL", "RL"])
    d = "%s %s mie=%s conv=%s %s/%s" % (route, fam, mie, proc, ri, li)
    m0 = scene(rng, T, H, N, family=fam, proc=proc, dense=0.6, heavy=True)
    if rng.random() < 0.6:       # effective radii are undefined where a class is absent
        for c in ("strat", "conv"):
            for x in m0.hyd_types:
                v = m0.ds["%s_re_%s" % (c, x)].values
                v[m0.ds["%s_q_%s" % (c, x)].values == 0] = np.nan if rng.random() < .5 else 0.
    m, err = call(gen, m0, N, route != "micro", rng.randrange(10**6))
    if err:
        return [(d, {"err": err, "prof": []})]
    out = []
    for cl in clouds(m):
        if route == "micro" and cl == "conv":
            continue
        hyd = list(m.hyd_types) if rng.random() < .6 else rng.sample(m.hyd_types, rng.randint(1, len(m.hyd_types)))
        r, err = call(beam_traces, m, instrument(ri), instrument(li), route, mie, hyd, cl, timeout=120)
        out.append((d + " %s hyd=%s" % (cl, hyd), {"err": err, "prof": r or []}))
    return out


def design(c):
    inv = ["Closed", "Monotone", "Causal", "BothSides"]
    k = dict(H=4, A=1, Z=2, Classes='{"x","y"}', Thr=1, Bug='"none"')
    c.model("BeamMC", k, inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("BeamMC", dict(k, H=5, Z=3), inv, deadlock=False, workers=8)
    for bug in ("own", "grid", "end"):
        c.model("BeamMC", dict(k, H=3, Bug='"%s"' % bug), inv, expect="any", deadlock=False, workers=4)


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 11)
    for x in ("HSRL", "RL", "KAZR", "WACR"):
        instrument(x)
    design(c)
    traces = [t for r in vlib.pmap(job, items(16 if vlib.THOROUGH else 2)) for t in r]
    c.info["profiles"] = sum(len(t["prof"]) for _, t in traces)
    good = [t for _, t in traces if not t["err"] and t["prof"]]
    corrupt = []
    for cl in ("first_layer_unattenuated", "never_recovers_along_the_beam", "clear_layer_does_not_attenuate",
               "every_class_contributes", "follows_extinction", "same_layer_from_both_sides",
               "gaseous_transmittance", "empirical_relation"):
        for _ in range(2):
            cand = [(t, j) for t in good for j, p in enumerate(t["prof"])
                    if p["lt"][-1] < -10**7 and p["tol"] < 100 and (cl != "follows_extinction" or p["tw"])
                    and (cl != "empirical_relation" or p["emp"])
                    and (cl != "same_layer_from_both_sides" or any(p["up"]))
                    and (cl != "clear_layer_does_not_attenuate" or 0 in p["pres"][1:-1])]
            if not cand:
                continue
            t, j = rng.choice(cand)
            t = {"err": "", "prof": [copy.deepcopy(t["prof"][j])]}
            p = t["prof"][0]
            n = len(p["z"])
            i = rng.randrange(1, n - 1)
            if cl == "first_layer_unattenuated":
                p["lt"][0] = -1
            elif cl == "never_recovers_along_the_beam":
                p["lt"][i] = p["lt"][i - 1] + p["tol"] + 1
            elif cl == "clear_layer_does_not_attenuate":
                i = p["pres"].index(0, 1, -1)
                for s in (p["lt"], p["tw"]) if p["tw"] else (p["lt"],):
                    for k in range(i + 1, n):
                        s[k] -= 3 * p["tol"]
            elif cl == "every_class_contributes":
                p["cls"][0] = [0] + [x + 10**5 for x in p["cls"][0][1:]]
            elif cl == "follows_extinction":
                p["tw"][i:] = [x - 10**4 for x in p["tw"][i:]]
            elif cl == "same_layer_from_both_sides":
                p["up"][i:] = [x - 10**7 for x in p["up"][i:]]
                p["dn"][:i] = [x - 3 * 10**7 for x in p["dn"][:i]]
            elif cl == "gaseous_transmittance":
                p["ga"][i] = p["ga"][i] - 100
            else:
                p["wet"][i] += max(10**4, p["wet"][i] // 2)
            corrupt.append((cl, t))
    c.validate("RadarBeamTrace", traces, corrupt, workers=8)
