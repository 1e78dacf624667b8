"""C03 precipitation subcolumn allocation."""
import itertools
import random

import numpy as np

from emcfix import Synth, CLASSES, instrument
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from subcol import *
import vlib
from vlib import call


def precip(cells, masks, N, rad, rng, cloud, classes, thr=1e-18, parallel=False, chunk=None, default=False):
    T, H = len(cells), len(cells[0])
    allc = ["cl", "ci"] + [x for x in classes if x not in ("cl", "ci")]
    m = model_from(cells, N, rng, cloud, classes, rad, thr, allclasses=allc)
    setn(m, N)
    a, b = np.zeros((N, T, H), bool), np.zeros((N, T, H), bool)
    for t in range(T):
        for j in range(H):
            for i in range(N):
                if masks[t][j] >> i & 1:
                    w = rng.randint(0, 2)
                    a[i, t, j], b[i, t, j] = w != 1, w != 0
    put_sub(m, cloud + "_frac_subcolumns_cl", a)
    put_sub(m, cloud + "_frac_subcolumns_ci", b)
    oth = "strat" if cloud == "conv" else "conv"         # the other cloud type must not matter
    for x in ("cl", "ci"):
        put_sub(m, oth + "_frac_subcolumns_" + x, np.array([[[rng.random() < 0.5 for _ in range(H)]
                                                             for _ in range(T)] for _ in range(N)]))
    kw = {} if default else {"precip_types": list(classes)}
    m = sc.set_precip_sub_col_frac(m, is_conv=cloud == "conv", use_rad_logic=rad, parallel=parallel, chunk=chunk,
                                   q_trunc_thresh=thr, **kw)
    return columns(m, "precip", cloud, classes, N, rad, thr, extra={"cloud": a | b})


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 3)
    np.random.seed(vlib.SEED)
    c.model("SubcolAlg", dict(N=4 if vlib.THOROUGH else 3, DoStrat="FALSE", Inherit="TRUE"), ["Refines"], workers=8)
    c.model("SubcolMC", dict(N=2, H=3 if not vlib.THOROUGH else 4, ConvPrefix="TRUE"),
            ["PrecipExact", "PrecipNested", "Satisfiable"])
    traces = []

    def rec(d, fn):
        r, err = call(fn, timeout=240)
        traces.extend([(d, err_trace("precip", err))] if err else [("%s col %d" % (d, i), t) for i, t in enumerate(r)])

    P2 = ["pl", "pi"]
    for N, rad, cloud in ((2, True, "strat"), (2, False, "conv"), (3, False, "strat"), (3, True, "conv")) + \
            (((4, True, "strat"),) if vlib.THOROUGH else ()):
        cells, masks = [], []
        for a, b, x, y in itertools.product(range(N + 1), repeat=4):
            for mk in range(2 ** N):
                if N == 3 and rng.random() > 0.5 and not vlib.THOROUGH:
                    continue
                cells.append([(a, b), (x, y), (rng.randint(0, N), rng.randint(0, N))])
                masks.append([mk, rng.randrange(2 ** N), rng.randrange(2 ** N)])
        rec("exhaustive N=%d rad=%s %s" % (N, rad, cloud),
            lambda: precip(cells, masks, N, rad, rng, cloud, P2, default=rng.random() < .5))
    for i in range(40 if not vlib.THOROUGH else 300):
        N = rng.choice([3, 4, 5, 6, 8, 11, 20])
        T, H = rng.choice([(1, 6), (6, 5), (5, 9)])
        if i % 10 == 9:
            N, T, H = rng.choice([40, 130, 260]), 1, 4
        rad, cloud = rng.random() < 0.5, rng.choice(["strat", "conv"])
        classes = rng.choice([P2, P2, ["pl", "pi", "sn"], ["pl"], ["pi"], ["pl", "sn", "gr", "ha"], ["pi", "pl"]])
        cells = random_cells(rng, T, H, N, len(classes))
        pm = rng.random()
        masks = [[0 if rng.random() < pm else rng.randrange(2 ** N) for _ in range(H)] for _ in range(T)]
        rec("random %d N=%d rad=%s %s %s" % (i, N, rad, cloud, classes),
            lambda: precip(cells, masks, N, rad, rng, cloud, classes, rng.choice([1e-18, 1e-9]),
                           rng.random() < 0.4, rng.choice([None, 2, 3])))
    for rad in (True, False):
        for proc in (True, False):
            N, T, H = 5, 6, 6
            f, g, q = ({cl: {x: np.zeros((T, H)) for x in CLASSES} for cl in ("strat", "conv")} for _ in range(3))
            for cl in f:
                for x in CLASSES:
                    for t in range(T):
                        for j in range(H):
                            f[cl][x][t, j] = frac_int(rng, rng.randint(0, N), N) / 1e6
                            g[cl][x][t, j] = frac_int(rng, rng.randint(0, N), N) / 1e6
                            q[cl][x][t, j] = q_of(rng, rng.random() < 0.8)

            def go():
                m = Synth(T, H, frac=f, frac_rad=g, q=q, process_conv=proc)
                m = make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=rad, subcol_gen_only=True,
                                        parallel=rng.random() < .5, chunk=rng.choice([None, 2, 4]))
                out = []
                for cloud in (["strat", "conv"] if proc else ["strat"]):
                    cm = m.ds[cloud + "_frac_subcolumns_cl"].values.astype(bool) | \
                        m.ds[cloud + "_frac_subcolumns_ci"].values.astype(bool)
                    out += columns(m, "precip", cloud, P2, N, rad, THR, extra={"cloud": cm})
                return out
            rec("pipeline rad=%s proc=%s" % (rad, proc), go)
    for cloud in ("strat", "conv"):
        def go():
            cells = [[(rng.randint(0, 1), rng.randint(0, 1)) for _ in range(4)] for _ in range(5)]
            m = model_from(cells, 1, rng, cloud, P2, True)
            for x in CLASSES:
                m = sc.set_convective_sub_col_frac(m, x, N_columns=1)
            m = sc.set_stratiform_sub_col_frac(m, N_columns=1)
            m = sc.set_precip_sub_col_frac(m, is_conv=cloud == "conv")
            return columns(m, "single", cloud, P2, 1, True, THR)
        rec("single subcolumn " + cloud, go)
    good = [t for _, t in traces if t["err"] == "" and t["kind"] == "precip" and t["n"] >= 3]
    corrupt = []
    while len(corrupt) < 8:
        t = rng.choice(good)
        j = rng.randrange(len(t["lev"]))
        corrupt.append(("top_level_empty" if j == len(t["lev"]) - 1 else "cover_exact", flip(t, rng, j, 0)))
    c.validate("SubcolTrace", traces, corrupt, workers=8)
