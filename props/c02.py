"""C02 stratiform cloud subcolumn allocation."""
import itertools
import random

import numpy as np

from emcfix import Synth, CLASSES, instrument
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from subcol import *
import vlib
from vlib import call

CC = ["cl", "ci"]


def arbitrary_conv(m, N, T, H, rng, masks):
    """Convective cl / ci subcolumn fields whose union is the given mask."""
    a = np.zeros((N, T, H), bool)
    b = np.zeros((N, T, H), bool)
    for t in range(T):
        for j in range(H):
            for i in range(N):
                if masks[t][j] >> i & 1:
                    w = rng.randint(0, 2)
                    a[i, t, j], b[i, t, j] = w != 1, w != 0
    setn(m, N)
    put_sub(m, "conv_frac_subcolumns_cl", a)
    put_sub(m, "conv_frac_subcolumns_ci", b)


def strat(cells, masks, N, rad, rng, thr=1e-18, proc=True, ncol=None, parallel=False, chunk=None):
    T, H = len(cells), len(cells[0])
    m = model_from(cells, N, rng, "strat", CC, rad, thr, process_conv=proc)
    if proc:
        arbitrary_conv(m, N, T, H, rng, masks)
    elif ncol is None:
        setn(m, N)
    m = sc.set_stratiform_sub_col_frac(m, N_columns=ncol, use_rad_logic=rad, parallel=parallel, chunk=chunk,
                                       q_trunc_thresh=thr)
    if proc:
        conv = m.ds["conv_frac_subcolumns_cl"].values.astype(bool) | m.ds["conv_frac_subcolumns_ci"].values.astype(bool)
    else:
        conv = np.zeros((N, T, H), bool)
    return columns(m, "strat", "strat", CC, N, rad, thr, extra={"conv": conv})


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 2)
    np.random.seed(vlib.SEED)
    n_alg = 4 if not vlib.THOROUGH else 5
    c.model("SubcolAlg", dict(N=n_alg, DoStrat="TRUE", Inherit="TRUE"), ["Refines"], workers=8)
    c.model("SubcolAlg", dict(N=2, DoStrat="TRUE", Inherit="FALSE"), ["Refines"], expect="Refines")
    c.model("SubcolMC", dict(N=2, H=3 if not vlib.THOROUGH else 4, ConvPrefix="FALSE"),
            ["Disjoint", "CoverNeverExceeds", "CoverExactWithoutConv", "Nested", "PhaseOverlap", "Satisfiable"])
    traces = []

    def rec(d, fn):
        r, err = call(fn, timeout=240)
        traces.extend([(d, err_trace("strat", err))] if err else [("%s col %d" % (d, i), t) for i, t in enumerate(r)])

    # exhaustive small scope: three levels (the top one is never filled), all counts at both lower levels and
    # every convective set at the level being filled
    for N, rad in ((2, True), (2, False), (3, False), (3, True)) + (((4, False),) if vlib.THOROUGH else ()):
        cells, masks = [], []
        for a, b, x, y in itertools.product(range(N + 1), repeat=4):
            for mk in range(2 ** N):
                if N == 3 and rad and rng.random() > 0.4:
                    continue
                cells.append([(a, b), (x, y), (rng.randint(0, N), rng.randint(0, N))])
                up = rng.choice([0, 0, rng.randrange(2 ** N)])
                masks.append([mk, up, rng.randrange(2 ** N)])
        rec("exhaustive N=%d rad=%s" % (N, rad), lambda: strat(cells, masks, N, rad, rng))
    # larger random columns
    for i in range(30 if not vlib.THOROUGH else 300):
        N = rng.choice([4, 5, 6, 8, 11, 20])
        T, H = rng.choice([(1, 6), (6, 5), (5, 9)])
        if i % 10 == 9:
            N, T, H = rng.choice([40, 130, 260]), 1, 4
        rad = rng.random() < 0.5
        cells = random_cells(rng, T, H, N, 2)
        pm = rng.random()
        masks = [[0 if rng.random() < pm else rng.randrange(2 ** N) for _ in range(H)] for _ in range(T)]
        if rng.random() < 0.4:
            masks = [[2 ** bin(x).count("1") - 1 for x in r] for r in masks]
        proc = rng.random() < 0.7
        rec("random %d N=%d rad=%s proc=%s" % (i, N, rad, proc),
            lambda: strat(cells, masks, N, rad, rng, rng.choice([1e-18, 1e-9]), proc,
                          rng.choice([None, N]), rng.random() < 0.4, rng.choice([None, 2, 3])))
    # pipeline (convective allocation from fractions)
    for rad in (True, False):
        for proc in (True, False):
            N, T, H = 5, 6, 6
            f, g, q = ({cl: {x: np.zeros((T, H)) for x in CLASSES} for cl in ("strat", "conv")} for _ in range(3))
            for cl in f:
                for x in CLASSES:
                    for t in range(T):
                        for j in range(H):
                            hi = N if cl == "strat" else 2
                            f[cl][x][t, j] = frac_int(rng, rng.randint(0, hi), N) / 1e6
                            g[cl][x][t, j] = frac_int(rng, rng.randint(0, hi), N) / 1e6
                            q[cl][x][t, j] = q_of(rng, rng.random() < 0.8)

            def go():
                m = Synth(T, H, frac=f, frac_rad=g, q=q, process_conv=proc)
                m = make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=rad, subcol_gen_only=True,
                                        parallel=False)
                if proc:
                    conv = m.ds["conv_frac_subcolumns_cl"].values | m.ds["conv_frac_subcolumns_ci"].values
                else:
                    conv = np.zeros((N, T, H), bool)
                return columns(m, "strat", "strat", CC, N, rad, THR, extra={"conv": conv})
            rec("pipeline rad=%s proc=%s" % (rad, proc), go)
    for proc in (True, False):
        def go():
            cells = [[(rng.randint(0, 1), rng.randint(0, 1)) for _ in range(4)] for _ in range(5)]
            m = model_from(cells, 1, rng, "strat", CC, True, process_conv=proc)
            if proc:
                for x in CLASSES:
                    m = sc.set_convective_sub_col_frac(m, x, N_columns=1)
            m = sc.set_stratiform_sub_col_frac(m, N_columns=1)
            return columns(m, "single", "strat", CC, 1, True, THR)
        rec("single subcolumn", go)
    good = [t for _, t in traces if t["err"] == "" and t["kind"] == "strat" and t["n"] >= 3]
    corrupt = []
    while len(corrupt) < 8:
        t = rng.choice(good)
        j = rng.randrange(len(t["lev"]))
        corrupt.append(("top_level_empty" if j == len(t["lev"]) - 1 else None, flip(t, rng, j, rng.randint(0, 1))))
    c.validate("SubcolTrace", traces, corrupt, workers=8)
    c.info["exhaustive_scope"] = "N<=3, 2 filled levels, all counts, all convective sets at the lowest level"
