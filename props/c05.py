"""C05 sub-grid variability of cloud liquid."""
import copy
import random

import numpy as np

from emcfix import CLASSES, instrument
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from incloud import *
import vlib
from vlib import call


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 5)
    np.random.seed(vlib.SEED)
    k = dict(NMax=3, MMax=3, GMax=5) if not vlib.THOROUGH else dict(NMax=4, MMax=4, GMax=6)
    c.model("Distribute", dict(Guard="TRUE", **k), ["Conserved", "NonNegative", "CutInRange"], props=["Terminates"],
            workers=8)
    c.model("Distribute", dict(Guard="FALSE", NMax=2, MMax=1, GMax=1), [], props=["Terminates"], expect="temporal")
    traces = []

    def rec(d, fn):
        r, err = call(fn, timeout=30)
        traces.extend([(d, etrace("variable", err))] if err else [("%s %s" % (d, t["kind"]), t) for t in r])

    n = 60 if not vlib.THOROUGH else 600
    for i in range(n):
        N = rng.choice([2, 3, 5, 8, 12, 30])
        T, H = rng.choice([(1, 3), (3, 1), (4, 5), (5, 12)])
        if i % 12 == 11:
            N, T, H = rng.choice([130, 260]), 2, 3
        thr = rng.choice([1e-18, 1e-18, 1e-7])
        mode = rng.choice(["default", "number", "array", "field", "field_and_argument"])
        par, ch = rng.random() < 0.4, rng.choice([None, 1, 2, 3, 7])
        narrow = np.array([[rng.random() < 0.5 for _ in range(H)] for _ in range(T)])
        inv = np.where(narrow, 1e8, 0.3)
        kw, rel = {}, None
        if mode == "number":
            v = rng.choice([1e8, 0.3, 1, 5])
            kw["inv_rel_var"] = v
            nar = np.full((T, H), v > 1e6) if v in (1e8, 0.3) else None
        elif mode == "array":
            kw["inv_rel_var"], nar = inv, narrow
        elif mode == "field":
            rel, nar = 1 / inv, narrow
        elif mode == "field_and_argument":
            rel, nar = 1 / inv, narrow
            kw["inv_rel_var"] = 1e8
        else:
            nar = np.zeros((T, H), bool)

        def go():
            m = rand_model(rng, N, T, H, CLASSES, thr, relvar=rel)
            arbitrary_sub(m, "strat", "cl", N, False, thr, rng)
            m = sc.set_q_n(m, "cl", is_conv=False, qc_flag=True, use_rad_logic=False, parallel=par, chunk=ch,
                           q_trunc_thresh=thr, **kw)
            return record_variable(m, N, False, thr, nar)
        rec("set_q_n #%d N=%d T=%d H=%d rel=%s parallel=%s chunk=%s thr=%g" % (i, N, T, H, mode, par, ch, thr), go)
    for i in range(8 if not vlib.THOROUGH else 40):
        N, T, H = rng.choice([4, 9]), 5, 6
        narrow = np.array([[rng.random() < 0.5 for _ in range(H)] for _ in range(T)])
        rel = np.where(narrow, 1e-8, 3.) if i % 2 else None

        def go():
            m = rand_model(rng, N, T, H, CLASSES, 1e-18, relvar=rel)
            del m.ds["subcolumn"]
            m.process_conv = i % 4 < 2
            m = make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=False, subcol_gen_only=True,
                                    parallel=rng.random() < .5, chunk=rng.choice([None, 2]))
            return record_variable(m, N, False, 1e-18, narrow if i % 2 else np.zeros((T, H), bool))
        rec("pipeline #%d N=%d relvar=%s" % (i, N, i % 2), go)
    good = [t for _, t in traces if t["err"] == "" and t["kind"] == "variable" and
            any(len(e["s"]) > 1 and e["m"] > 1000 for e in t["cell"])]
    corrupt = []
    for i in range(6):
        t = copy.deepcopy(rng.choice(good))
        e = rng.choice([e for e in t["cell"] if len(e["s"]) > 1 and e["m"] > 1000])
        if i % 2:
            e["v"][e["s"][0] - 1] += 60
            corrupt.append(("cell_mean_conserved", t))
        else:
            e["v"][e["s"][0] - 1] -= 2000000
            e["v"][e["s"][1] - 1] += 2000000
            corrupt.append(("never_negative", t))
    c.validate("InCloudTrace", traces, corrupt, workers=8)
