"""C08 the one-call simulation is its documented sequence of steps (spec/Session.tla Plan, PlanMC.tla)."""
import random

from session import *
import vlib

ONE = dict(Small="FALSE", Emit="TRUE", Bug='"none"')


def parse_plan(line):
    a, b = line[len("PLAN "):].split("#")
    k, rest = a.split(":", 1)
    vals = rest.split(",")
    o = dict(zip(FIELDS + SIMOPT, [k] + vals[:len(FIELDS) - 1 + len(SIMOPT)]))
    conv, p3 = [v == "true" for v in vals[-2:]]
    return o, conv, p3, [parse_op(x) for x in b.split("|") if x]


def custom(rng):
    """Instruments with settings of their own."""
    out = {}
    for n in ("HSRL", "KAZR", "CEIL", "WACR"):
        i = copy.copy(instrument(n))
        i.eta, i.ext_OD, i.OD_from_sfc = rng.choice([0.8, 0.55, 1.]), rng.choice([0.25, 1.5, 3.]), rng.random() < .5
        out[n] = i
    return out


def world(rng, fam, conv, N, ready):
    """A scene whose generation involves no chance: all or nothing covers, no sub-grid variability."""
    T, H = 2, 5
    kw = {"hybrid": 0} if fam == "P3" else {"relvar": np.full((T, H), 1e-36)}
    m = scene(rng, T, H, N, family=fam, proc=conv, dense=0.6, heavy=True, **kw)
    if not ready:
        for f in list(m.ds.data_vars):
            if "_frac" in f:
                m.ds[f].values[:] = np.where(m.ds[f].values > .4, 1., 0.)
        if fam == "P3":
            m.ds["strat_q_cl"].values[:] = 0.
        return m, ""
    return call(gen, m, N, rng.random() < .5, rng.randrange(10 ** 6))


def job(item, rng):
    fam, conv, ready, plans = item
    N = rng.choice([2, 3])
    d = "plans %s conv=%s subcolumns=%s" % (fam, conv, "given" if ready else "generated")
    m, err = world(rng, fam, conv, N, ready)
    if err:
        return d, {"pre": [], "conv": conv, "p3": False, "inputs": 0, "settings": 0, "ev": [
            {"new": True, "op": {"k": "fin"}, "err": err, "dig": {}, "inputs": 0, "settings": 0}]}
    R = Runner(m, custom(rng), rng)
    R.Nsub = N
    for o, steps in plans:
        if rng.random() < .3 and o["lidar"] == "false":        # the other radar
            o = dict(o, inst="WACR")
            steps = [dict(s, inst="WACR") if s["inst"] == "KAZR" else s for s in steps]
        for seq in rng.sample(([o], steps), 2):
            R.session(seq, cur=o["inst"])
    return d, R.trace(fam == "P3")


def misuse(item, rng):
    """Steps in a random order on a random state: the specification knows which must be refused."""
    fam, conv = item
    N = 2
    ready = rng.random() < .8
    d = "misuse %s conv=%s" % (fam, conv)
    m, err = world(rng, fam, conv, N, ready)
    if err:
        return d, {"pre": [], "conv": conv, "p3": False, "inputs": 0, "settings": 0, "ev": [
            {"new": True, "op": {"k": "fin"}, "err": err, "dig": {}, "inputs": 0, "settings": 0}]}
    R = Runner(m, {x: instrument(x) for x in ("HSRL", "CEIL", "RL", "KAZR", "WACR")}, rng)
    R.Nsub = N
    E = lambda k, **kw: dict(dict.fromkeys(FIELDS, "-"), k=k, **kw)
    L, Rd = ["HSRL", "CEIL", "RL"], ["KAZR", "WACR"]
    for _ in range(12):
        ops = []
        lid = rng.random() < .5
        for c in ["strat", "conv"] if conv else ["strat"]:
            if rng.random() < .75:
                i = rng.choice(L if lid else Rd) if rng.random() < .85 else rng.choice(Rd if lid else L)
                ops.append(E("lid" if lid else "rad", cloud=c, inst=i, route="bulk", dir="up", mie="false",
                             eta="1" if lid else "-", hyd="all"))
        x = rng.choice(L + Rd)
        tail = [E("ltot", dir="up", eta="1"), E("ldr", dir="up", ext="4", hyd="all"),
                E("lcls", inst=rng.choice([x, "HSRL"]), nan="false"),
                E("cosp", inst=rng.choice([x, "HSRL"]), dir="up", eta="0.7", hyd="all", nan="false")] if lid else \
               [E("zmin", inst=rng.choice(Rd), ref="1000"), E("rtot"), E("rcls", inst=rng.choice([x, "KAZR"]), nan="false", rng="none")]
        ops += [t for t in tail if rng.random() < .7]
        start = len(R.ev)
        R.session(ops)
        for e in R.ev[start:]:
            e["mis"] = "prerequisites"
    if ready:                                   # another number of subcolumns than there are
        R.Nsub = N + rng.choice([1, 3])
        R.session([E("gfrac", route="bulk")])
        R.ev[-1]["mis"] = "number"
        R.session([dict(E("sim", inst="KAZR", route="bulk"), gen="only", cls="false", fin="false", lidar="false")])
        R.ev[-1]["mis"] = "number"
    else:
        R.session([E("gmass", route="bulk")])
        R.ev[-1]["mis"] = "prerequisites"
    # precipitation before the cloud it falls from
    b, miss = rng.random() < .5 and conv, rng.choice(["cl", "ci"])
    k, name = "conv" if b else "strat", ""
    try:
        w = clone(m)
        for x in ("strat", "conv"):
            w.ds = w.ds.drop_vars([v for v in w.ds.data_vars if v.startswith(x + "_frac_subcolumns_")])
        if "subcolumn" not in w.ds:
            w.ds["subcolumn"] = ("subcolumn", np.arange(N))
        T, H = w.ds[w.strat_frac_names["cl"]].shape
        has = "ci" if miss == "cl" else "cl"
        name = "%s_frac_subcolumns_%s" % (k, miss)
        w.ds["%s_frac_subcolumns_%s" % (k, has)] = (("subcolumn",) + w.ds[w.strat_frac_names["cl"]].dims, np.ones((N, T, H)))
    except Exception as e:
        raise vlib.RecordError("no scene without clouds: %r" % e)

    def early():
        try:
            sc.set_precip_sub_col_frac(w, b, use_rad_logic=rng.random() < .5,
                                       precip_types=[x for x in w.hyd_types if x not in ("cl", "ci")])
            return "", ""
        except KeyError as e:
            return "KeyError", str(e)
    r, err = call(early)
    kind, text = r if r else (err.split(":")[0], err)
    R.ev.append(dict(copy.deepcopy(R.ev[-1]), new=True, op=E("gmass", route="bulk"), mis="unready", err=kind, kind=kind, names=name in text))
    return d, R.trace(False)


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 8)
    th = vlib.THOROUGH
    inv = ["Runnable", "Routed", "Exactly"]
    c.model("PlanMC", dict(ONE, Small="TRUE", Emit="FALSE"), inv, deadlock=False, workers=8)
    if th:
        c.model("PlanMC", dict(ONE, Emit="FALSE"), inv, deadlock=False, workers=8, timeout=3000)
    for bug, want in (("eta", "Routed"), ("dir", "Routed"), ("late", "any")):
        c.model("PlanMC", dict(ONE, Small="TRUE", Emit="FALSE", Bug='"%s"' % bug), inv, expect=want, deadlock=False, workers=8)
    r = c.model("PlanMC", ONE, [], deadlock=False, workers=1, heap="2g",
                extra=("-simulate", "num=%d" % (6000 if th else 700), "-depth", "40", "-seed", str(rng.randrange(1, 10 ** 6))))
    plans = [parse_plan(x) for x in r["prints"] if x.startswith("PLAN")]
    if len(plans) < 150:
        raise vlib.tlc.TLCError("too few plans generated: %d" % len(plans))
    for x in ("HSRL", "CEIL", "RL", "KAZR", "WACR"):
        instrument(x)
    jobs = {}
    for o, conv, p3, steps in plans:
        if p3 and o["hyd"] != "default" and rng.random() < .3:
            continue
        if not p3 and o["route"] == "micro" and o["sw"] in ("default", "true") and rng.random() < .5:
            continue                            # slow ones
        fam = "P3" if p3 else rng.choice(["ModelE", "ModelE", "CESM"]) if o["hyd"] in ("default", "cl+ci") and \
            o["route"] != "empirical" else "ModelE"
        jobs.setdefault((fam, conv, o["gen"] == "skip"), []).append((o, steps))
    items = []
    per = 12
    cap = 400 if th else 3
    for k, v in sorted(jobs.items()):
        rng.shuffle(v)
        items += [k + (v[i:i + per],) for i in range(0, min(len(v), per * cap), per)]
    traces = vlib.pmap(job, items)
    mis = vlib.pmap(misuse, [("ModelE", b) for b in (True, False)] * (20 if th else 3) + [("CESM", True)])
    c.info["plans_executed"] = sum(len(i[3]) for i in items)
    c.info["steps_executed"] = sum(len(t["ev"]) for _, t in traces + mis)
    c.info["misuse_cases"] = sum(1 for _, t in mis for e in t["ev"] if e["err"])
    corrupt = []
    good = [t for _, t in traces if all(e["err"] == "" for e in t["ev"])]
    for kind in ("same_derivation_same_result", "only_requested_results", "requested_results_exist", "inputs_unchanged",
                 "settings_unchanged"):
        for _ in range(40):
            if not good:
                break
            t = copy.deepcopy(rng.choice(good))
            e = rng.choice(t["ev"])
            if e["op"]["k"] != "sim" or e["op"]["gen"] == "only":
                continue
            ks = [g for g in ("ldr", "ltot", "rtot", "zmin", "lid_strat", "rad_strat") if e["dig"].get(g, 0) > 0]
            if kind[0] == "s" and kind[1] == "a":
                e["dig"][rng.choice(ks)] += 10 ** 6
            elif kind[0] == "o":
                e["dig"]["cosp" if e["op"]["lidar"] == "false" else "rcls"] = 7
            elif kind[0] == "r":
                e["dig"][ks[0]] = 0
            else:
                e[kind.split("_")[0]] += 1
            corrupt.append((kind, t))
            break
    for _, t in mis:
        t = copy.deepcopy(t)
        es = [e for e in t["ev"] if e["err"]]
        if es:
            rng.choice(es)["err"] = ""
            corrupt.append(("misuse_is_refused", t))
            break
    for _, t in mis[:2]:
        t = copy.deepcopy(t)
        t["ev"][-1]["kind"] = "TypeError"
        corrupt.append(("misuse_says_what_is_missing", t))
    c.validate("SessionTrace", traces + mis, corrupt, workers=8)
