"""C07 history independence: sessions generated by TLC from spec/SessionMC.tla, replayed on shared objects."""
import copy
import random
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from session import *
import vlib

FULL = dict(Routes='{"bulk","micro","empirical"}', Dirs='{"up","down"}', Lidars='{"HSRL","CEIL"}',
            Radars='{"KAZR","WACR"}')


def pairs(ops, rng):
    """One session in which every ordered pair of the given steps occurs next to each other (an Eulerian circuit)."""
    left = {a: rng.sample(range(len(ops)), len(ops)) for a in range(len(ops))}
    stack, tour = [rng.randrange(len(ops))], []
    while stack:
        a = stack[-1]
        if left[a]:
            stack.append(left[a].pop())
        else:
            tour.append(stack.pop())
    return [ops[i] for i in reversed(tour)]


def job(item, rng):
    """Replay sessions and their slices on one scene."""
    fam, proc, lines, moments = item
    N, T, H = 2, 2, 4
    nsess = 0
    kw = {"hybrid": {"P3": 0, "P3-1": 1, "P3-2": 2}[fam]} if fam[:2] == "P3" else {}
    fam = fam[:2] if kw else fam
    m, err = call(gen, scene(rng, T, H, N, family=fam, proc=proc, dense=0.7, **kw), N, rng.random() < .5,
                  rng.randrange(10 ** 6))
    d = "sessions %s conv=%s %s" % (fam, proc, kw)
    if err:
        return d, {"pre": [], "conv": proc, "p3": False, "inputs": 0, "settings": 0, "ev": [
            {"new": True, "op": {"k": "fin"}, "err": err, "dig": {}, "inputs": 0, "settings": 0}]}, 0
    insts = {x: instrument(x) for x in ("HSRL", "CEIL", "KAZR", "WACR")}
    if fam == "P3" and rng.random() < .7:            # a user's own instrument may bear the name of another one
        for a, b in (("CEIL", "HSRL"), ("WACR", "KAZR")):
            insts[a] = copy.copy(insts[a])
            insts[a].instrument_str = insts[b].instrument_str
    R = Runner(m, insts, rng)
    for ln in lines:
        ops, slices = parse_session(ln)
        R.session(ops)
        nsess += 1
        for s in rng.sample(slices, min(len(slices), 99 if vlib.THOROUGH else 3)):
            R.session(s)
            nsess += 1
        if rng.random() < 0.5:          # asking again for what is there must give it again
            R.session(ops + ops[-2:])
            nsess += 1
    # what one calculation leaves behind must not reach the next one, whichever the two are
    for k in ("lid", "rad"):
        own = [o for o in moments if o["k"] == k]
        d1 = rng.choice(sorted({o["dir"] for o in own}))
        own = [o for o in own if o["dir"] == d1]
        own = own if vlib.THOROUGH else rng.sample(own, min(len(own), 8))
        R.session(pairs(own, rng))
        for o in own:
            R.session([o])
        # finalized subcolumns (undefined where clear) give what the original ones give
        fin = dict(parse_op(",".join(["fin:-"] + ["-"] * (len(FIELDS) - 2))))
        again = rng.sample(own, min(len(own), 3))
        for o in again:
            R.session([fin, o])
        nsess += 1 + len(own) + len(again)
    return d, R.trace(fam == "P3"), nsess


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 7)
    th = vlib.THOROUGH
    base = dict(D=5 if th else 4, Conv="TRUE", Lidars='{"HSRL"}', Radars='{"KAZR"}', Routes='{"bulk"}', Dirs='{"up"}',
                Emit="FALSE", Leak="FALSE")
    inv = ["HistoryFree", "SliceRunnable", "Repeatable"]
    c.model("SessionMC", base, inv, workers=8)
    c.model("SessionMC", dict(base, D=4, Conv="FALSE", Routes='{"bulk","micro"}'), inv, workers=8)
    c.model("SessionMC", dict(base, Leak="TRUE"), ["HistoryFree"], expect="HistoryFree")
    traces = []
    cfgs = [("ModelE", True), ("ModelE", False), ("CESM", True), ("ModelE", True), ("CESM", False), ("ModelE", True),
            ("CESM", True), ("P3", False), ("P3-1", False), ("P3-2", False)] * (4 if th else 1)
    lines = {}
    jobs = []
    for proc in (True, False):
        for routes in (FULL["Routes"], '{"bulk","micro"}'):
            for mix in ({}, {"Radars": "{}"}, {"Lidars": "{}"}):      # one kind alone reaches later steps more often
                k = dict(FULL, D=16 if th else 10, Conv=str(proc).upper(), Emit="TRUE", Leak="FALSE", Routes=routes)
                k.update(mix)
                jobs.append((proc, "emp" in routes, k, rng.randrange(1, 10 ** 6)))

    def sim(j):
        proc, emp, k, seed = j
        r = c.model("SessionMC", k, [], deadlock=False, workers=1, heap="2g",
                    extra=("-simulate", "num=%d" % (60 if th else 6), "-depth", str(3 * k["D"] + 4), "-seed", str(seed)))
        x = [ln for ln in r["prints"] if ln.startswith("SESSION")]
        if not x:
            raise vlib.tlc.TLCError("no sessions generated")
        return (proc, emp), x
    with ThreadPoolExecutor(6) as ex:
        for key, x in ex.map(sim, jobs):
            lines.setdefault(key, []).append(x)
    for x in ("HSRL", "CEIL", "KAZR", "WACR"):
        instrument(x)
    jobs = []
    for n, (fam, proc) in enumerate(cfgs):
        pools = lines[(proc, fam == "ModelE")]
        ops = {o for pool in pools for ln in pool for s in ln[len("SESSION "):].split("#") for o in s.split("|")
               if o.startswith(("lid:strat", "rad:strat", "lid:conv", "rad:conv"))}
        ops = [parse_op(o) for o in sorted(ops)]
        jobs.append((fam, proc, [rng.choice(pool) for pool in pools for _ in range(6 if th else 1)],
                     ops))
    res = vlib.pmap(job, jobs)
    traces = [(d, t) for d, t, _ in res]
    nsess = sum(n for _, _, n in res)
    c.info["sessions_replayed"] = nsess
    c.info["steps_replayed"] = sum(len(t["ev"]) for _, t in traces)
    corrupt = []
    good = [t for _, t in traces if all(e["err"] == "" for e in t["ev"])]
    for kind in ("same_derivation_same_result", "other_results_untouched", "inputs_unchanged", "settings_unchanged",
                 "only_requested_results"):
        t = copy.deepcopy(rng.choice(good)) if good else None
        if t is None:
            break
        for e in rng.sample(t["ev"], len(t["ev"])):
            if kind == "inputs_unchanged":
                e["inputs"] += 1
            elif kind == "settings_unchanged":
                e["settings"] += 1
            elif kind == "only_requested_results":
                if "cosp" in e["dig"] or e["op"]["k"] == "cosp":
                    continue
                e["dig"]["cosp"] = 5
            else:
                w = {"rad": ["rad_" + e["op"]["cloud"]], "lid": ["lid_" + e["op"]["cloud"]], "ltot": ["ltot"],
                     "rtot": ["rtot"]}.get(e["op"]["k"], [])
                gs = [g for g in e["dig"] if (g in w) == (kind[0] == "s") and (kind[0] == "s" or g not in
                      ("atm", "mol", "dop"))]
                if not gs or e["new"]:
                    continue
                e["dig"][rng.choice(gs)] += 10 ** 6
            break
        corrupt.append((None, t))
    c.validate("SessionTrace", traces, corrupt, workers=8)
