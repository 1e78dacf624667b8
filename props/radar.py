"""Recorders of radar profiles and cells (C11, C12, C20)."""
import copy
import math

import numpy as np

from beams import *
from vlib import call


def twin(radar, lidar):
    """The radar with the scattering tables of the lidar: sees what the lidar sees."""
    t = copy.copy(radar)
    t.mie_table, t.scat_table, t.bulk_table = lidar.mie_table, lidar.scat_table, lidar.bulk_table
    t.instrument_str = radar.instrument_str + "_with_" + lidar.instrument_str
    return t


def items(n=1):
    out = []
    for i in range(n):
        for route in ROUTES:
            for fam in (["ModelE", "CESM", "P3"] if route != "empirical" else ["ModelE", "P3"]):
                for mie in ([True, False] if route != "empirical" else [False]):
                    out.append((route, fam, mie, i))
    return out


def sim_radar(m, inst, route, sfc, mie, hyd=None, cl=None, **kw):
    for c in cl or clouds(m):
        m = moments(m, inst, c, route, sfc, mie_for_ice=mie, **({} if hyd is None else {"hyd_types": hyd}), **kw)
    return m


def lnT(m, c):
    with np.errstate(all="ignore"):
        return np.log(A(m, "hyd_ext_" + c))


def empirical_kf(inst, m):
    """Published Rayleigh absorption of liquid water, dB km-1 per g m-3 (evaluated independently)."""
    e = inst.eps_liq
    im = ((e - 1) / (e + 2)).imag
    return 6 * math.pi / (inst.wavelength * m.Rho_hyd["cl"].magnitude) * im * 4.34e6


def beam_traces(m, radar, lidar, route, mie, hyd, cl):
    """(m has subcolumns) profiles for both looking directions; raises what emc2 raises."""
    runs = {}
    for sfc in (True, False):
        runs[sfc] = sim_radar(clone(m), radar, route, sfc, mie, hyd, [cl])
    one = {(x, sfc): sim_radar(clone(m), radar, route, sfc, mie, [x], [cl]) for x in hyd for sfc in (True, False)}
    tw, od = {}, {}
    if route != "empirical":
        t = twin(radar, lidar)
        for sfc in (True, False):
            tw[sfc] = lnT(sim_radar(clone(m), t, route, sfc, mie, hyd, [cl], calc_spectral_width=False), cl)
            od[sfc] = -2 * A(simulate_lidar(clone(m), lidar, route, sfc, 1, hyd, mie, [cl], total=False), "sub_col_OD_tot_" + cl)
    z = zint(m)
    kap = A(runs[True], "kappa_att")
    q = {x: A(m, "%s_q_subcolumns_%s" % (cl, x)) for x in hyd}
    f = {x: A(m, "%s_frac_subcolumns_%s" % (cl, x)) for x in hyd}
    N, T, H = q[hyd[0]].shape
    pm = m.ds[m.p_field].values * 100.
    tk = m.ds[m.T_field].values
    out = []

    def rec(i, t, sfc, lt, cls, tws, emp):
        vals = [lt] + cls + ([tws] if tws is not None else [])
        if min(np.min(v) for v in vals) < -600:      # transmittance underflows
            return None
        both = [np.maximum(lnT(runs[s], cl)[i, t], -600) for s in (True, False)] if tws is None else [lt, lt]
        if min(np.min(v) for v in both) <= -600:
            return None
        u = norm(np.concatenate([np.ravel(v) for v in vals + both]))
        tol = 3 + int(math.ceil(4e-16 * H * (len(cls) + 2) / u))
        if tol > 10 ** 6:
            return None
        att = [x for x in hyd if not emp or x in ("cl", "pl")]
        pres = [int(any(q[x][i, t, k] > 0 or f[x][i, t, k] > 0 for x in att)) for k in range(H)]
        with np.errstate(all="ignore"):
            g = np.log10(A(runs[sfc], "atm_ext")[t]) * 10
        r = {"z": [int(v) for v in beam(z[t], sfc)], "lt": fxs(beam(lt, sfc), u),
             "cls": [fxs(beam(v, sfc), u) for v in cls],
             "tw": fxs(beam(tws, sfc), u) if tws is not None else [],
             "pres": beam(pres, sfc), "tol": tol, "up": fxs(both[0], u), "dn": fxs(both[1], u),
             "zh": [int(v) for v in z[t]], "kap": fxs(beam(kap[t], sfc), 1e-6), "ga": fxs(beam(g, sfc), 1e-6),
             "emp": int(emp), "wet": []}
        if emp:
            wc = sum((q[x][i, t] * pm[t] / (radar.R_d * tk[t]) * 1e3 for x in att), np.zeros(H))
            # ln T per metre of the layer
            r["wet"] = fxs(beam(wc * empirical_kf(radar, m) * 2 / 1e3 * math.log(10) / 10, sfc), u)
        if tws is not None:    # twin profiles: both sides are compared in the real ones
            r["up"], r["dn"] = [0] * H, [0] * H
        return r

    for sfc in (True, False):
        L = lnT(runs[sfc], cl)
        C = [lnT(one[x, sfc], cl) for x in hyd]
        for i in range(N):
            for t in range(T):
                out.append(rec(i, t, sfc, L[i, t], [c[i, t] for c in C], None, route == "empirical"))
                if tw:
                    out.append(rec(i, t, sfc, tw[sfc][i, t], [tw[sfc][i, t]], od[sfc][i, t], False))
    return [r for r in out if r]


def lin(dbz):
    with np.errstate(all="ignore"):
        return 10 ** (np.asarray(dbz, float) / 10)


def z_cells(m, hyd):
    """C12: cells of RadarZ."""
    cl = clouds(m)
    F = {}
    for c in cl:
        for x in list(hyd) + ["tot"]:
            F[c, x] = A(m, "sub_col_Ze_%s_%s" % (x, c))
        F[c, "att"] = A(m, "sub_col_Ze_att_tot_" + c)
        with np.errstate(all="ignore"):
            F[c, "hyd"] = 10 * np.log10(A(m, "hyd_ext_" + c))
    F["tot"], F["tatt"], F["mask"] = A(m, "sub_col_Ze_tot"), A(m, "sub_col_Ze_att_tot"), A(m, "detect_mask")
    gas, zmin = 10 * np.log10(A(m, "atm_ext")), A(m, "Ze_min")
    z = zint(m)
    out = []
    for idx in np.ndindex(F["tot"].shape):
        t, k = idx[1:]
        u = norm([lin(F[c, x][idx]) for c in cl for x in list(hyd) + ["tot"]] + [lin(F["tot"][idx])])
        rec = {"gas": dbf(gas[t, k]), "zmin": dbf(zmin[t, k]), "l20": dbf(20 * math.log10(z[t, k])),
               "tot": {"tot": fx(lin(F["tot"][idx]), u), "ze": dbf(F["tot"][idx]), "zatt": dbf(F["tatt"][idx]),
                       "mask": int(F["mask"][idx])}}
        for c in cl:
            rec[c] = {"cls": [fx(lin(F[c, x][idx]), u) for x in hyd], "tot": fx(lin(F[c, "tot"][idx]), u),
                      "ze": dbf(F[c, "tot"][idx]), "zatt": dbf(F[c, "att"][idx]), "hyd": dbf(F[c, "hyd"][idx])}
        out.append(rec)
    return out


def z_twin(m, radar, lidar, route, mie, hyd, cl, limit=60):
    if route == "empirical":
        return []
    t = twin(radar, lidar)
    r = sim_radar(clone(m), t, route, True, mie, hyd, [cl], calc_spectral_width=False)
    l = simulate_lidar(clone(m), lidar, route, True, 1, hyd, mie, [cl], total=False)
    const = lg(radar.wavelength ** 4 / (radar.K_w * math.pi ** 5) * 1e-6)
    out = []
    for x in hyd:
        Z, B = lin(A(r, "sub_col_Ze_%s_%s" % (x, cl))), A(l, "sub_col_beta_p_%s_%s" % (x, cl))
        for idx in np.ndindex(Z.shape):
            if B[idx] == 0 and not Z[idx] > 0 and idx[0]:
                continue
            out.append({"z": lg(Z[idx]), "b": lg(B[idx]), "c": const})
    return out[:limit * len(hyd)]
