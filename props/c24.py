"""C24 vertical regridding, scattering ratio, lidar cloud fraction (spec/Regrid*.tla)."""
import copy
import random

import numpy as np
import xarray as xr

from sim import *
import vlib
from vlib import call, fx, fxs, NNAN, NINF

import emc2.statistics_LLNL.statistical_aggregation as sa



def levels(rng, n):
    """Full levels (even integers, increasing)."""
    z, out = 2 * rng.randint(1, 5), []
    for _ in range(n):
        out.append(z)
        z += 2 * rng.choice([1, 1, 2, 3, 5])
    return out


def half(z):
    return [z[0] - (z[1] - z[0]) // 2] + [(a + b) // 2 for a, b in zip(z, z[1:])]


def target(rng, z):
    """New layers in increasing order, not overlapping: contiguous or with gaps, below ground to above the top."""
    top = z[-1] + 8
    bot, b, t = rng.choice([-3, 0, 0, 1, half(z)[0], z[0]]), [], []
    step = rng.choice([1, 2, 3, 4, 7, 12, None])
    for _ in range(9):
        w = step or rng.randint(1, 9)
        b.append(bot)
        t.append(bot + w)
        bot += w + (rng.choice([0, 0, 1, 4]) if step is None or rng.random() < .1 else 0)
        if bot > top:
            break
    return b, t


def lin(x):
    """Regridded dB -> thousandths of the linear mean."""
    x = float(x)
    if np.isnan(x) or x <= -1e29:
        return NNAN
    return -NINF if x <= -1e19 else fx(10 ** (x / 10), .001)


def mil(x):
    return -NINF if x <= -1e19 and x > -1e29 else fx(x, .001)


def job(item, rng):
    kind, rep = item
    KM = rng.choice([.125, .125, 1 / 128.])              # coarse and fine levels
    N, T, C, L = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([2, 3, 5, 7])
    if rng.random() < .1:
        N, T, C, L = rng.choice([140, 270]), 1, 1, 2
    z = np.array([[levels(rng, L) for _ in range(T)] for _ in range(C)])            # C, T, L
    base = levels(rng, L)
    if rng.random() < .3:
        z[:] = base
    nb, nt = target(rng, [int(x) for x in z[0, 0]])
    G = len(nb)
    newb, newt = np.array(nb) * KM, np.array(nt) * KM
    ev = []

    def prof(c, t):
        return [int(x) for x in z[c, t]]

    def seq(a):
        return [NNAN if np.isnan(x) else int(round(x)) for x in a]
    d = "%s N=%d T=%d C=%d z=%s new=%s..%s" % (kind, N, T, C, prof(0, 0), nb, nt)
    if kind in ("mean", "ze"):
        y = np.array([[[float(rng.choice([0, 1, 2, 10, 50])) for _ in range(L)] for _ in range(N)] for _ in range(T)])
        if kind == "ze":
            y[y == 0] = np.nan
            arg = np.nan_to_num(10 * np.log10(y), nan=-1e30)
        else:
            arg = y.copy()
        zf, zh = z[0] * KM, np.array([half(prof(0, t)) for t in range(T)]) * KM
        a = (zf.copy(), zh.copy(), arg.copy(), newb.copy(), newt.copy())
        r, err = call(sa.COSP_CHANGE_VERTICAL_GRID, T, N, L, a[0], a[1], a[2], G, a[3], a[4],
                      **(dict(lunits=True) if kind == "ze" else {} if rep % 2 else dict(lunits=False)))
        for t in range(T):
            for s in range(N):
                for g in range(G):
                    ev.append(dict(op=kind, err=err, zf=prof(0, t), zh=half(prof(0, t)), nb=nb[g], nt=nt[g], final=False,
                                   y=seq(y[t, s]), r=0 if err else (lin if kind == "ze" else mil)(r[t, s, g])))
        ev.append(dict(op="untouched", err="", same=all(np.array_equal(p, q) for p, q in
                                                        zip(a, (zf, zh, arg, newb, newt)))))
        return d, {"ev": ev}
    if kind == "cf":
        s = np.array([[[[rng.choice([np.nan, 0., .005, .01, .011, .5, 1., 4.999, 5., 5.001, 80.]) for _ in range(C)]
                        for _ in range(G)] for _ in range(T)] for _ in range(N)])
        if rng.random() < .3:
            s[:, :, 0] = rng.choice([np.nan, 0.])
        a = s.copy()
        r, err = call(sa.calculate_lidar_CF, a, T, G, C)
        for t in range(T):
            for g in range(G):
                for c in range(C):
                    ev.append(dict(op="cf", err=err, s=[fx(x, .001) for x in s[:, t, g, c]],
                                   r=0 if err else fx(r[t, g, c], 1e-6)))
        ev.append(dict(op="untouched", err="", same=bool(np.array_equal(a, s, equal_nan=True))))
        return d, {"ev": ev}
    # a simulation output with integer signals; further stages from what the first returned
    tot = np.array([[[[rng.choice([0, 1, 3, 20, 200]) for _ in range(C)] for _ in range(L)] for _ in range(T)]
                    for _ in range(N)], float)
    if rng.random() < .5:
        for _ in range(3):
            tot[rng.randrange(N), rng.randrange(T), rng.randrange(L):, rng.randrange(C)] = np.nan
    sig = np.array([[[rng.randint(1, 9) for _ in range(C)] for _ in range(L)] for _ in range(T)], float)
    tau = np.array([[[rng.randint(1, 5) for _ in range(C)] for _ in range(L)] for _ in range(T)], float)
    if rng.random() < .2:
        sig[rng.randrange(T), rng.randrange(L), rng.randrange(C)] = np.nan
    ze = np.array([[[[rng.choice([np.nan, 1, 2, 10, 50]) for _ in range(C)] for _ in range(L)] for _ in range(T)]
                   for _ in range(N)], float)
    zz = np.transpose(z, (1, 2, 0))                        # T, L, C
    U = rng.choice([1e-7, 1e-7, 1e-10, 1e-5])             # from thin air aloft to a cloud
    m = emcfix_model(N, T, L, C)
    d4, d3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    m.ds["sub_col_beta_att_tot"] = (d4, tot * U)
    m.ds["sub_col_Ze_att_tot"] = (d4, 10 * np.log10(ze))
    m.ds["sigma_180_vol"] = (d3, sig * U)
    m.ds["tau"] = (d3, tau / 5)
    m.ds["Z3"] = (d3, zz * KM * 1000)
    keep = m.ds.copy(deep=True)
    r, err = call(sa.get_radar_lidar_signals, m)

    def get(n, a, u):
        return [fx(x, u) for x in a]
    for s in range(N):
        for t in range(T):
            for c in range(C):
                e = dict(op="signal", err=err, zf=prof(c, t), tot=seq(tot[s, t, :, c]), ze=seq(ze[s, t, :, c]),
                         sig=[int(x) if x == x else 0 for x in sig[t, :, c]], tau=[int(x) for x in tau[t, :, c]],
                         gtot=[], gmol=[], gz=[], gzh=[], gze=[])
                if not err:
                    e.update(gtot=get("", r[0][s, t, :, c], U),
                             gmol=get("", np.where(np.isnan(sig[t, :, c]), np.where(np.isnan(r[1][s, t, :, c]), 0, 1),
                                                   r[1][s, t, :, c]), U / 5),
                             gz=get("", r[2][t, :, c], KM), gzh=get("", r[3][t, :, c], KM),
                             gze=get("", 10 ** (r[4][s, t, :, c] / 10), 1))
                ev.append(e)
    ev.append(dict(op="untouched", err="", same=bool(keep.identical(m.ds))))
    if err:
        return d, {"ev": ev}
    args = [x.copy() for x in r]
    mol = sig * tau
    if rng.random() < .3:                                  # the regridding takes any signal
        b0 = args[1]
        b0 *= .5
        mol = mol / 2
        args[0] *= .5
        tot = tot / 2
    had = [x.copy() for x in args]
    sr, err = call(sa.calculate_SR, args[0], args[1], N, T, args[2], args[3], N, T, L, G, C, newb.copy(), newt.copy())
    zr, err2 = call(sa.get_regridded_ze_att_tot, args[4], args[2], args[3], N, T, G, C, newb.copy(), newt.copy(), N, T, L)
    for s in range(N):
        for t in range(T):
            for c in range(C):
                for g in range(G):
                    b = dict(zf=prof(c, t), nb=nb[g], nt=nt[g])
                    # 2*sig*tau and 10*tot keep the halves and fifths of the units whole
                    ev.append(dict(b, op="sr", err=err, tot=seq(10 * tot[s, t, :, c]), mol=seq(2 * mol[t, :, c]),
                                   r=0 if err else fx(sr[s, t, g, c], .001)))
                    ev.append(dict(b, op="ze", err=err2, final=True, y=seq(ze[s, t, :, c]),
                                   r=0 if err2 else lin(zr[s, t, g, c])))
    ev.append(dict(op="untouched", err="", same=all(np.array_equal(p, q, equal_nan=True) for p, q in zip(had, args))))
    return d, {"ev": ev}


def emcfix_model(N, T, L, C):
    from emcfix import Synth
    m = Synth(T, L)
    m.ds = xr.Dataset(coords={"subcolumn": np.arange(N), "time": np.arange(T), "lev": np.arange(L), "ncol": np.arange(C)})
    return m


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 24)
    mc = dict(NOld=3, NNew=3, MaxZ=7 if vlib.THOROUGH else 6)
    c.model("RegridMC", dict(mc, Bug='"none"'), ["Right", "NoError", "Conserves"], deadlock=False, workers=8)
    for b, w in (("skip", "Right"), ("bound", "NoError"), ("noback", "Right"), ("thick", "Right")):
        c.model("RegridMC", dict(NOld=3, NNew=3, MaxZ=6, Bug='"%s"' % b), [w], expect=w, deadlock=False, workers=4)
    c.model("CfadMC", dict(Undef=99, NS=3, MaxX=3, Bug='"ok"'), ["Fraction"], expect="Fraction", deadlock=False)
    its = [(k, i) for i in range(40 if vlib.THOROUGH else 10)
           for k in ("mean", "ze", "cf", "chain", "chain", "mean")]
    traces = vlib.pmap(job, its)
    corrupt = []
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]

    def pick(op, cond=lambda e: True, n=2):
        ok = [e for t in good for e in t["ev"] if e["op"] == op and cond(e)]
        return [copy.deepcopy(rng.choice(ok)) for _ in range(n)]
    num = lambda e: abs(e["r"]) < 1.8e9 and e["r"] > 100
    for op, cond, cl, f in (("mean", num, "mean_of_the_shared_layers", lambda e: e.update(r=e["r"] + e["r"] // 20 + 5)),
                            ("mean", lambda e: e["r"] == -NINF, "below_ground_flagged", lambda e: e.update(r=0)),
                            ("mean", lambda e: e["r"] == 0, None, lambda e: e.update(r=900)),
                            ("ze", num, "echo_averaged_linearly", lambda e: e.update(r=e["r"] + e["r"] // 20 + 5)),
                            ("ze", lambda e: e["r"] == NNAN and e["nt"] > e["zf"][0], "no_echo_undefined",
                             lambda e: e.update(r=5)),
                            ("sr", num, "ratio_of_total_to_molecular", lambda e: e.update(r=e["r"] + e["r"] // 20 + 5)),
                            ("sr", lambda e: e["r"] == NNAN, None, lambda e: e.update(r=1000)),
                            ("cf", num, "cloudy_over_usable", lambda e: e.update(r=e["r"] - 70000)),
                            ("cf", lambda e: e["r"] == NNAN, "no_usable_subcolumn_undefined", lambda e: e.update(r=0)),
                            ("signal", lambda e: True, "half_levels_between_the_levels",
                             lambda e: e["gzh"].__setitem__(0, e["gzh"][0] + 1)),
                            ("signal", lambda e: True, "molecular_signal_attenuated",
                             lambda e: e["gmol"].__setitem__(1, e["gmol"][1] + 1)),
                            ("untouched", lambda e: True, "arguments_unchanged", lambda e: e.update(same=False))):
        for e in pick(op, cond):
            f(e)
            corrupt.append((cl, {"ev": [e]}))
    c.validate("RegridTrace", traces, corrupt, workers=8)
    c.info["cells"] = sum(len(t["ev"]) for _, t in traces)
