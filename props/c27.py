"""C27 results do not depend on the units of the input (spec/Units*.tla)."""
import random

from radar import *
from digest import Interner
from emcfix import quantity

P = {"hPa": 1., "Pa": 100., "pascal": 100., "mbar": 1., "millibar": 1., "hectopascal": 1., "kPa": .1}
Z = {"meter": 1., "m": 1., "km": .001, "kilometer": .001}
TT = {"kelvin": 0., "K": 0., "degC": -273.15, "celsius": -273.15}
ATM = ("p_3d", "t", "z")


def restate(m, p, t, z):
    m = clone(m)
    for n, u, f in (("p_3d", p, lambda a: a * P[p]), ("t", t, lambda a: a + TT[t]), ("z", z, lambda a: a * Z[z])):
        m.ds[n] = (m.ds[n].dims, f(m.ds[n].values), dict(m.ds[n].attrs, units=u))
    return m


def job(item, rng):
    (route, fam, mie, sfc), kind, rep = item
    N, T, H = rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([3, 4, 5])
    proc = fam != "P3" and rng.random() < .6
    inst = instrument(rng.choice(["HSRL", "CEIL"]) if kind == "lidar" else rng.choice(["KAZR", "WACR"]))
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=.7, heavy=True), N, route != "micro",
                  rng.randrange(10 ** 6))
    d = "%s %s %s mie=%s sfc=%s %s conv=%s" % (kind, route, fam, mie, sfc, inst.instrument_str, proc)
    if err:
        return d, {"ev": [{"err": err, "f": {}, "in": {}, "in0": {}}]}
    ids = Interner(1e-8)
    eta, rng_m = rng.choice([1, .7]), sorted(rng.sample([0, 300, 900, 1500, 4000], 2))
    onecall = rng.random() < .4
    hyd = list(m.hyd_types)

    def sim(m, z):
        if onecall:
            m = make_simulated_data(m, inst, N, do_classify=inst.instrument_str != "CEIL", parallel=False, skip_subcol_gen=True,
                                    mie_for_ice=mie, OD_from_sfc=sfc, finalize_fields=False, **rkw(route))
        elif kind == "lidar":
            m = simulate_lidar(m, inst, route, sfc, eta, hyd, mie)
            m = lm.calc_LDR_and_ext(m, 1.5, sfc)
            if inst.instrument_str != "CEIL":                 # thresholds are published for the HSRL only
                m = cf.lidar_classify_phase(inst, m)
                m = cf.lidar_emulate_cosp_phase(inst, m, eta=eta, OD_from_sfc=sfc, hyd_types=[x for x in hyd])
        else:
            m = sim_radar(m, inst, route, sfc, mie)
            m = at.calc_radar_Ze_min(inst, m)
            m = rm.calc_total_reflectivity(m, detect_mask=True)
            # a range of heights is given in the units of the model's heights
            m = cf.radar_classify_phase(inst, m, mask_height_rng=[x * Z[z] for x in rng_m])
        return m
    ev, names = [], set(m.ds.variables)
    labels = [("hPa", "kelvin", "meter")]
    while len(labels) < 4:
        u = (rng.choice(list(P)), rng.choice(list(TT)), rng.choice(list(Z)))
        if u not in labels:
            labels.append(u)
    for u in labels:
        mm = restate(m, *u)
        atm = lambda q: {n: [q.ds[n].attrs.get("units", ""), ids("in" + n, q.ds[n].values)] for n in ATM}
        i0 = atm(mm)
        r, err = call(sim, mm, u[2], timeout=120)
        f = {}
        if not err:
            f = {n: ids("f" + n, A(r, n)) for n in r.ds.data_vars if n not in names and n not in ("mu", "lambda", "N_0")}
        ev.append({"err": err, "f": f, "in": {} if err else atm(r), "in0": {} if err else i0, "u": " ".join(u)})
    return d + " onecall=%s %s" % (onecall, labels[1:]), {"ev": ev}


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 27)
    for x in ("HSRL", "CEIL", "KAZR", "WACR"):
        instrument(x)
    k = dict(Values="{0, 5, 200, 300}", Stages=4)
    c.model("UnitsMC", dict(k, Bug='"none"'), ["Agree", "Right"], deadlock=False)
    for b in ("raw", "factor", "named", "inplace"):
        c.model("UnitsMC", dict(k, Bug='"%s"' % b), ["Agree"], expect="Agree", deadlock=False)
    its = [(cb, kd, i) for i in range(10 if vlib.THOROUGH else 1) for cb in combos(rng) for kd in ("lidar", "radar")]
    traces = vlib.pmap(job, its)
    c.info["fields"] = sum(len(e["f"]) for _, t in traces for e in t["ev"])
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []
    for cl in ("same_results_in_any_unit", "atmosphere_untouched", "same_fields"):
        for t in (rng.sample(good, 3) if len(good) > 3 else good):
            t = copy.deepcopy(t)
            e = t["ev"][rng.randint(1, 3)]
            n = rng.choice(sorted(e["f"]))
            if cl == "same_fields":
                del e["f"][n]
            elif cl == "atmosphere_untouched":
                e["in"]["t"][0] = "K?"
            else:
                e["f"][n] = 10 ** 6
            corrupt.append((cl, t))
    c.validate("UnitsTrace", traces, corrupt, workers=8)
