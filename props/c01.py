"""C01 convective subcolumn allocation."""
import random

import numpy as np

from emcfix import Synth, CLASSES
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from subcol import *
import subcol as S
import vlib
from vlib import call


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 1)
    c.model("SubcolMC", dict(N=2, H=3, ConvPrefix="TRUE"),
            ["Disjoint", "CoverNeverExceeds", "CoverExactWithoutConv", "Nested", "PhaseOverlap", "Satisfiable"])
    traces, corrupt = [], []
    Ns = [2, 3, 4, 5, 7, 8, 10, 16, 25] + ([60, 200, 1000] if vlib.THOROUGH else [60, 200])
    for N in Ns:
        for rad in (True, False):
            for thr in (1e-18, 1e-9):
                for shape in ((1, 4), (5, 3)) if N < 100 else ((2, 3),):
                    T, H = shape
                    T = max(T, (N + 1) // 3 + 1) if T > 1 and N <= 25 else T
                    cells = [[(rng.randint(0, N),) * 1 for _ in range(H)] for _ in range(T)]
                    for n_, k in enumerate(range(0, N + 1)):           # every count at least once
                        if T > 1 and N <= 25:
                            cells[n_ % T][n_ // T % H] = (k,)
                    for cls in (["cl", "pi"] if N < 20 else ["ci"]):
                        def go():
                            m = model_from(cells, N, rng, "conv", [cls], rad, thr)
                            m = sc.set_convective_sub_col_frac(m, cls, N_columns=N, use_rad_logic=rad,
                                                               q_trunc_thresh=thr)
                            return columns(m, "conv", "conv", [cls], N, rad, thr)
                        r, err = call(go)
                        d = "set_convective_sub_col_frac N=%d rad=%s thr=%g %dx%d %s" % (N, rad, thr, T, H, cls)
                        if err:
                            traces.append((d, err_trace("conv", err)))
                        else:
                            traces += [(d + " col %d" % i, t) for i, t in enumerate(r)]
    # every class through the pipeline, second and later classes with N already set / None
    for rad in (True, False):
        for proc in range(2):
            N = 6 + proc
            H, T = 4, 4
            f, g, q = ({cl: {x: np.zeros((T, H)) for x in CLASSES} for cl in ("strat", "conv")} for _ in range(3))
            for cl in f:
                for x in CLASSES:
                    for t in range(T):
                        for j in range(H):
                            f[cl][x][t, j] = frac_int(rng, rng.randint(0, N), N) / 1e6
                            g[cl][x][t, j] = frac_int(rng, rng.randint(0, N), N) / 1e6
                            q[cl][x][t, j] = q_of(rng, rng.random() < 0.7)

            def go():
                from emcfix import instrument
                m = Synth(T, H, frac=f, frac_rad=g, q=q)
                if proc == 0:
                    m = make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=rad, subcol_gen_only=True,
                                            parallel=False)
                else:
                    m = sc.set_convective_sub_col_frac(m, "cl", N_columns=N, use_rad_logic=rad)
                    m = sc.set_convective_sub_col_frac(m, "ci", N_columns=N, use_rad_logic=rad)
                    for x in ("pl", "pi"):
                        m = sc.set_convective_sub_col_frac(m, x, use_rad_logic=rad)
                out = []
                for x in (CLASSES if proc else ["cl", "ci"]):
                    out += [(x, t) for t in columns(m, "conv", "conv", [x], N, rad, THR)]
                return out
            r, err = call(go)
            d = "%s rad=%s" % ("pipeline" if proc == 0 else "class by class", rad)
            traces += [(d, err_trace("conv", err))] if err else [("%s %s" % (d, x), t) for x, t in r]
    # a single subcolumn: presence by mixing ratio
    for rad in (True, False):
        def go():
            cells = [[(rng.randint(0, 1),) for _ in range(4)] for _ in range(5)]
            m = model_from(cells, 1, rng, "conv", ["ci"], rad)
            m = sc.set_convective_sub_col_frac(m, "ci", N_columns=1, use_rad_logic=rad)
            return columns(m, "single", "conv", ["ci"], 1, rad, THR)
        r, err = call(go)
        traces += [("single subcolumn rad=%s" % rad, err_trace("single", err))] if err else \
            [("single subcolumn rad=%s" % rad, t) for t in r]
    good = [t for _, t in traces if t["err"] == "" and t["kind"] == "conv"]
    for i in range(6):
        t = rng.choice(good)
        corrupt.append(("conv_leading_block", flip(t, rng, rng.randrange(len(t["lev"])), 0)))
    corrupt.append(("call_completes", err_trace("conv", "x")))
    c.validate("SubcolTrace", traces, corrupt)
