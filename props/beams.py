"""Recorders of lidar and radar profiles for the beam specifications (C09-C12)."""
import copy

import numpy as np

from sim import *
import vlib
from vlib import call


def beam(a, sfc):
    a = list(a)
    return a if sfc else a[::-1]


def simulate_lidar(m, inst, route, sfc, eta, hyd=None, mie=False, clouds_=None, total=True):
    """Moments of every processed cloud type and the totals."""
    for cl in clouds_ or clouds(m):
        m = moments(m, inst, cl, route, sfc, eta=eta, mie_for_ice=mie, **({} if hyd is None else {"hyd_types": hyd}))
    return lm.calc_total_alpha_beta(m, OD_from_sfc=sfc, eta=eta) if total else m


def sum_cells(m, hyd):
    """C09: cells of LidarSum."""
    cl = clouds(m)
    F = {}
    for c in cl:
        for q in ("beta", "alpha", "OD"):
            n = "sub_col_OD" if q == "OD" else "sub_col_%s_p" % q
            for x in list(hyd) + ["tot"]:
                F[c, q, x] = A(m, "%s_%s_%s" % (n, x, c))
            F["tot", q] = A(m, n + "_tot")
    out = []
    for idx in np.ndindex(F[cl[0], "OD", "tot"].shape):
        rec = {}
        u = {q: norm([F[c, q, x][idx] for c in cl for x in list(hyd) + ["tot"]] + [F["tot", q][idx]])
             for q in ("beta", "alpha", "OD")}
        if all(F[c, "beta", "tot"][idx] == 0 for c in cl) and all(F[c, "OD", "tot"][idx] == 0 for c in cl) \
                and F["tot", "beta"][idx] == 0 and F["tot", "alpha"][idx] == 0 and F["tot", "OD"][idx] == 0 \
                and out and vlib.SEED % 7:
            continue
        for c in cl:
            rec[c] = {k: fxs([F[c, q, x][idx] for x in hyd], u[q]) for k, q in
                      (("b", "beta"), ("a", "alpha"), ("o", "OD"))}
            rec[c].update({"t" + k: fx(F[c, q, "tot"][idx], u[q]) for k, q in
                           (("b", "beta"), ("a", "alpha"), ("o", "OD"))})
        rec["tot"] = {k: fx(F["tot", q][idx], u[q]) for k, q in (("b", "beta"), ("a", "alpha"), ("o", "OD"))}
        out.append(rec)
    return out


def beam_profiles(m, hyd, sfc, eta10):
    """C10: profiles of LidarBeamTrace."""
    cl, z = clouds(m), zint(m)
    b, tau, sig = A(m, "beta"), A(m, "tau"), A(m, "sigma_180_vol")
    F = {}
    for c in cl:
        for x in list(hyd) + ["tot"]:
            F[c, x] = A(m, "sub_col_alpha_p_%s_%s" % (x, c)), A(m, "sub_col_OD_%s_%s" % (x, c))
    F["tot"] = A(m, "sub_col_alpha_p_tot"), A(m, "sub_col_OD_tot")
    S = {c: (A(m, "sub_col_beta_p_tot_" + c), A(m, "sub_col_OD_tot_" + c), A(m, "sub_col_beta_att_tot_" + c))
         for c in cl}
    S["tot"] = A(m, "sub_col_beta_p_tot"), A(m, "sub_col_OD_tot"), A(m, "sub_col_beta_att_tot")
    out = []
    N, T, _ = F["tot"][0].shape
    for i in range(N):
        for t in range(T):
            par, sg = [], []
            for k, (a, od) in F.items():
                a, od = beam(a[i, t], sfc), beam(od[i, t], sfc)
                if not any(a) and not any(od):
                    continue
                u = norm(a, 40000)
                par.append({"a": fxs(a, u), "od": fxs(od, u)})
            for k, (bp, od, at_) in S.items():
                bp, od, at_ = beam(bp[i, t], sfc), beam(od[i, t], sfc), beam(at_[i, t], sfc)
                sg.append({"lsum": lgs(np.array(bp) + np.array(beam(sig[t], sfc))), "o5": fxs(od, 1e-5),
                           "la": lgs(at_)})
            out.append({"z": [int(x) for x in beam(z[t], sfc)], "par": par, "sig": sg, "eta10": eta10,
                        "mol": {"b": fxs(beam(b[t], sfc), 1e-10), "lt": lgs(beam(tau[t], sfc))}})
    return out


def combos(rng):
    out = []
    for route in ROUTES:
        for fam in (["ModelE", "CESM", "P3"] if route != "empirical" else ["ModelE"]):
            for mie in ([True, False] if route != "empirical" else [False]):
                for sfc in (True, False):
                    out.append((route, fam, mie, sfc))
    return out


def scenes(rng, n=1):
    """Work items: (route, family, mie, sfc)."""
    return [(c, i) for i in range(n) for c in combos(rng)]
