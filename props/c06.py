"""C06 columns are independent: serial / parallel / chunked / scheduled / permuted / restricted runs agree."""
import copy
import random

import numpy as np

from sim import *
from sched import Scheduler, parse_schedule, using
from digest import Interner
import tlc
import vlib
from vlib import call


def fields(m, inputs):
    return [f for f in m.ds.data_vars if f not in inputs]


def table(m, names, dim, ids):
    """field -> identity of the values of each position along dim (fields without dim are left out)."""
    out = {}
    for f in names:
        d = m.ds[f]
        if dim not in d.dims or d.dtype.kind in "OUS":
            continue
        v = d.transpose(dim, *sorted(x for x in d.dims if x != dim)).values
        if "_Vd_" in f or "_sigma_d_" in f:
            v = np.where(v == 0, np.nan, v)          # both stand for a clear cell (see finalize_subcol_fields)
        out[f] = [ids(f, v[i]) for i in range(v.shape[0])]
    return out


def schedules(c, T, chunks, rng, per):
    """Behaviours of ChunkMap: every completion order (sampled down to `per`) for each chunk size."""
    out = []
    for C in chunks:
        r = c.model("ChunkMap", dict(T=T, C=C, Step=C, Slack=0, InOrder="TRUE", Emit="TRUE"),
                    ["Deterministic", "Prefix"], deadlock=False)
        s = sorted(set(ln for ln in r["prints"] if ln.startswith("SCHED")))
        for ln in rng.sample(s, min(per, len(s))):
            out.append((C, parse_schedule(ln)))
    return out


def simulate(m, name, route, opts):
    kw = dict(rkw(route))
    kw.update(opts)
    return make_simulated_data(m, instrument(name), m.num_subcolumns, skip_subcol_gen=True,
                               do_classify=name in ("HSRL", "KAZR"), **kw)


def job(item, rng):
    (name, route, fam), T, scheds = item
    th, traces, box = vlib.THOROUGH, [], [0]
    long = T > 12
    N, H = (rng.choice([2, 24]), rng.choice([3, 12])) if long else (rng.choice([3, 4]), rng.choice([4, 5]))
    proc = rng.random() < 0.8 and fam != "P3"
    sfc, mie = rng.random() < 0.5, rng.random() < 0.5
    d = "%s %s %s N=%d conv=%s sfc=%s mie=%s" % (name, route, fam, N, proc, sfc, mie)
    m0 = scene(rng, T, H, N, family=fam, proc=proc, dense=0.6)
    m0.Vd_rhoa_scaling_ref = {x: None if rng.random() < .3 else 1. for x in m0.hyd_types}
    with np.errstate(all="ignore"):
        m0, err = call(gen, m0, N, route != "micro", rng.randrange(10 ** 6))
    if err:
        traces.append((d, {"ref": {}, "runs": [{"kind": "schedule", "err": err, "out": {}, "perm": []}]}))
        return traces, box[0]
    inputs = set(m0.ds.data_vars)
    ids = Interner()
    opts = dict(OD_from_sfc=sfc, mie_for_ice=mie)
    runs, refs = [], {}

    def go(m, kind, perm, dim, sch=None, **kw):
        with using(sch if sch is not None else "synchronous"):
            r, err = call(simulate, m, name, route, dict(opts, **kw))
        out = {} if err else table(r, fields(r, inputs), dim, ids)
        runs.append({"kind": kind, "err": err, "out": out, "perm": perm})
        return r

    ref, err = call(simulate, clone(m0), name, route, dict(opts, parallel=False))
    if err:
        traces.append((d, {"ref": {}, "runs": [{"kind": "schedule", "err": err, "out": {}, "perm": []}]}))
        return traces, box[0]
    idp = list(range(1, T + 1))
    reft = table(ref, fields(ref, inputs), "time", ids)
    reftot = dict(reft)
    if route == "micro":
        for C, chunks in ([] if long else scheds if th else rng.sample(scheds, 7)):
            s = Scheduler(chunks, rng.randrange(10 ** 6), isolate=rng.random() < 0.3)
            go(clone(m0), "schedule", idp, "time", s, parallel=True, chunk=C)
            box[0] += s.followed
        for C in ([1, 10, rng.randint(2, T - 1), T - 1, T + 3] if long else []):
            go(clone(m0), "schedule", idp, "time", Scheduler(seed=rng.random()), parallel=True, chunk=C)
        go(clone(m0), "schedule", idp, "time", "threads", parallel=True)
        go(clone(m0), "schedule", idp, "time", Scheduler(seed=rng.random(), isolate=True), parallel=True)
    else:
        go(clone(m0), "schedule", idp, "time", parallel=True, chunk=2)
    for _ in range(2):
        perm = list(range(T))
        rng.shuffle(perm)
        m = clone(m0)
        m.ds = m.ds.isel(time=perm)
        go(m, "permute", [p + 1 for p in perm], "time", parallel=False)
    for sub in ([rng.randrange(T)], sorted(rng.sample(range(T), 2))):
        m = clone(m0)
        m.ds = m.ds.isel(time=sub)
        go(m, "subset", [p + 1 for p in sub], "time", parallel=False)
    traces.append((d, {"ref": reftot, "runs": runs}))
    runs, refs = [], table(ref, fields(ref, inputs), "subcolumn", ids)
    perm = list(range(N))
    rng.shuffle(perm)
    for sel in (perm, sorted(rng.sample(range(N), 2)), [rng.randrange(N)]):
        m = clone(m0)
        m.ds = m.ds.isel(subcolumn=sel)
        go(m, "subcolumns", [p + 1 for p in sel], "subcolumn", parallel=False)
    traces.append((d + " subcolumns", {"ref": refs, "runs": runs}))
    return traces, box[0]


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 6)
    th = vlib.THOROUGH
    base = dict(T=4, Step=2, Slack=0, InOrder="TRUE", Emit="FALSE")
    c.model("ChunkMap", dict(base, C=2), ["Deterministic", "Prefix"], props=["Terminates"])
    c.model("ChunkMap", dict(base, T=6 if th else 5, C=3, Step=3), ["Deterministic", "Prefix"], props=["Terminates"])
    c.model("ChunkMap", dict(base, C=2, Slack=1), ["Deterministic", "Prefix"], expect="any")
    c.model("ChunkMap", dict(base, C=2, InOrder="FALSE"), ["Deterministic", "Prefix"], expect="any")
    c.model("ChunkMap", dict(base, C=2, Step=3), ["Deterministic", "Prefix"], expect="any")
    T = 5 if th else 4
    scheds = schedules(c, T, [1, 2, 3, T, T + 2], rng, 60 if th else 4)
    for x in ("HSRL", "CEIL", "KAZR", "WACR"):
        instrument(x)
    combos = [("HSRL", "micro", "ModelE"), ("KAZR", "micro", "ModelE"), ("CEIL", "micro", "CESM"),
              ("WACR", "micro", "CESM"), ("HSRL", "bulk", "ModelE"), ("KAZR", "bulk", "CESM"),
              ("HSRL", "empirical", "ModelE"), ("KAZR", "empirical", "ModelE"),
              ("HSRL", "micro", "P3"), ("KAZR", "micro", "P3"), ("CEIL", "bulk", "P3"), ("WACR", "bulk", "P3")]
    traces, followed = [], 0
    # days of output: more times than any chunk, on schedules of their own
    far = [(x, rng.choice([27, 41, 66]), None) for x in (combos if th else rng.sample(combos[:4] + combos[8:10], 2))]
    for tr, f in vlib.pmap(job, [(x, T, scheds) for x in combos * (6 if th else 1)] + far):
        traces += tr
        followed += f
    # generation with fractions of 0 or 1 is deterministic: it must not depend on the execution mode either
    for rad in (True, False):
        H, N = 5, 3
        m0 = scene(rng, T, H, N)
        for cl in ("strat", "conv"):
            for x in m0.hyd_types:
                for k in ("frac", "fracrad"):
                    a = m0.ds["%s_%s_%s" % (cl, k, x)].values
                    a[:] = (a > 0) * 1.
        inputs, ids, runs, ref = set(m0.ds.data_vars), Interner(), [], None
        drop = {"strat_q_subcolumns_cl"}
        for C, chunks in [(None, None)] + rng.sample(scheds, 6):
            m = clone(m0)
            par = chunks is not None
            with using(Scheduler(chunks, 1, isolate=rng.random() < .5) if par else "synchronous"):
                r, err = call(make_simulated_data, m, instrument("KAZR"), N, use_rad_logic=rad, parallel=par,
                              chunk=C, subcol_gen_only=True)
            tab = {} if err else table(r, [f for f in fields(r, inputs) if f not in drop], "time", ids)
            if not par:
                ref = tab
            runs.append({"kind": "schedule", "err": err, "out": tab, "perm": list(range(1, T + 1))})
        traces.append(("generation rad=%s" % rad, {"ref": ref, "runs": runs}))
    c.info["schedules_followed"] = followed
    c.info["runs_compared"] = sum(len(t["runs"]) for _, t in traces)
    corrupt = []
    good = [t for _, t in traces if all(r["err"] == "" for r in t["runs"]) and len(t["runs"][0]["perm"]) > 1]
    for kind, cl in (("schedule", "schedule_independent"), ("permute", "columns_independent"),
                     ("subcolumns", "subcolumns_independent")):
        cand = [t for t in good if any(r["kind"] == kind for r in t["runs"])]
        if not cand:
            continue
        for _ in range(2):
            t = copy.deepcopy(rng.choice(cand))
            r = rng.choice([r for r in t["runs"] if r["kind"] == kind])
            f = rng.choice(sorted(r["out"]))
            r["out"][f][rng.randrange(len(r["perm"]))] += 1000000
            corrupt.append((cl, t))
        t = copy.deepcopy(rng.choice(cand))
        del rng.choice(t["runs"])["out"][rng.choice(sorted(t["ref"]))]
        corrupt.append(("same_fields", t))
    c.validate("ColumnTrace", traces, corrupt, workers=8)
