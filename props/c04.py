"""C04 in-cloud mixing ratios and number concentrations."""
import copy
import random

import numpy as np

from emcfix import CLASSES, instrument
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from incloud import *
import vlib
from vlib import call


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 4)
    np.random.seed(vlib.SEED)
    c.model("InCloudMC", dict(N=4, QMax=24), ["GridMeanConserved"])
    traces = []

    def rec(d, fn):
        r, err = call(fn, timeout=120)
        traces.extend([(d, etrace("uniform", err))] if err else [("%s %s" % (d, t["kind"]), t) for t in r])

    for i in range(60 if not vlib.THOROUGH else 600):
        for cloud in ("strat", "conv"):
            for rad in (True, False):
                N = rng.choice([1, 2, 3, 5, 8, 12])
                T, H = rng.choice([(1, 3), (3, 1), (4, 5), (3, 6)])
                if i % 15 == 14:
                    N, T, H = rng.choice([40, 130, 260]), 1, 2
                thr = rng.choice([1e-18, 1e-18, 1e-7])
                cls = rng.choice(EXTRA)
                qc = rng.random() < 0.5 and (rad or cloud == "conv")     # ignored in these modes
                par, ch = rng.random() < 0.3, rng.choice([None, 2])
                full = N == 1 and rng.random() < .4

                def go():
                    m = rand_model(rng, N, T, H, EXTRA, thr, full=full)
                    if N == 1:
                        a = np.where(m.ds[(m.q_names_stratiform if cloud == "strat" else
                                           m.q_names_convective)[cls]].values > thr, 1., 0.)[None]
                        put_sub(m, "%s_frac_subcolumns_%s" % (cloud, cls), a)
                    else:
                        arbitrary_sub(m, cloud, cls, N, rad, thr, rng)
                    m = sc.set_q_n(m, cls, is_conv=cloud == "conv", qc_flag=qc, use_rad_logic=rad, parallel=par,
                                   chunk=ch, q_trunc_thresh=thr)
                    return record(m, cloud, cls, N, rad, thr)
                rec("set_q_n #%d N=%d %s %s rad=%s qc_flag=%s thr=%g" % (i, N, cloud, cls, rad, qc, thr), go)
    for rad in (True, False):
        for N in (1, 4, 7):
            for classes in (CLASSES, EXTRA):
                def go():
                    m = rand_model(rng, N, 4, 5, classes, 1e-18, full=N == 1 and rng.random() < .5)
                    del m.ds["subcolumn"]
                    if len(classes) > 4:
                        m.process_conv = False
                    m = make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=rad, subcol_gen_only=True,
                                            parallel=rng.random() < .5, chunk=rng.choice([None, 3]))
                    out = []
                    for cloud in (["strat", "conv"] if m.process_conv else ["strat"]):
                        for x in classes:
                            r = record(m, cloud, x, N, rad, 1e-18)
                            if x == "cl" and cloud == "strat" and not rad and N > 1:
                                r = [t for t in r if t["kind"] == "number"]   # q has sub-grid variability (C05)
                            out += r
                    return out
                rec("pipeline rad=%s N=%d %s" % (rad, N, classes), go)
    good = [t for _, t in traces if t["err"] == "" and t["kind"] == "uniform" and
            any(e["s"] and e["over"] and len(e["s"]) < len(e["v"]) for e in t["cell"])]
    corrupt = []
    for n in range(6):
        t = copy.deepcopy(rng.choice(good))
        e = rng.choice([e for e in t["cell"] if e["s"] and e["over"] and len(e["s"]) < len(e["v"])])
        if n % 2:
            e["v"][e["s"][0] - 1] += 40
            corrupt.append(("in_cloud_mean", t))
        else:
            o = [i for i in range(1, len(e["v"]) + 1) if i not in e["s"]][0]
            e["v"][o - 1] = e["q"]
            corrupt.append(("empty_outside", t))
    c.validate("InCloudTrace", traces, corrupt, workers=8)
