"""Executes steps of spec/Session.tla on the real code and records group digests (C07, C08)."""
import copy

import numpy as np

from sim import *
from sched import Scheduler, using
from digest import Interner
from emcfix import instrument
from vlib import call
import vlib

FIELDS = ["k", "cloud", "inst", "route", "dir", "mie", "eta", "ext", "hyd", "ref", "nan", "rng", "sw"]
SIMOPT = ["gen", "cls", "fin", "lidar"]
NAN = float("nan")


def parse_op(s):
    k, rest = s.split(":", 1)
    return dict(zip(FIELDS, [k] + rest.split(",")))


def parse_session(line):
    """-> ops, list of slices"""
    parts = line[len("SESSION "):].split("#")
    f = lambda x: [parse_op(o) for o in x.split("|") if o]
    return f(parts[0]), [f(x) for x in parts[1:]]


def group_of(f):
    """Which group of spec/Session.tla a result field belongs to (None: scratch, not compared)."""
    if f.endswith("_COSP_phase_mask") or f.startswith("COSP_"):
        return "cosp"
    if "phase_mask_" in f:
        return "rcls" if "_sounding" in f else "lcls"
    if f in ("sigma_180_vol", "tau"):
        return "mol"
    if f in ("atm_ext", "kappa_att"):
        return "atm"
    if f == "Ze_min":
        return "zmin"
    if f == "ext_mask" or f.startswith("sub_col_LDR"):
        return "ldr"
    if f in ("sub_col_Ze_tot", "sub_col_Ze_att_tot", "detect_mask"):
        return "rtot"
    if f.startswith(("sub_col_Vd_", "sub_col_sigma_d_")):
        return "dop"
    for c in ("strat", "conv"):
        if f.startswith(("sub_col_beta_", "sub_col_alpha_", "sub_col_OD_")) and f.endswith("_" + c):
            return "lid_" + c
        if (f.startswith("sub_col_Ze_") and f.endswith("_" + c)) or f == "hyd_ext_" + c:
            return "rad_" + c
        if f.startswith(c + "_frac_subcolumns_"):
            return "g_frac"
        if f.startswith((c + "_q_subcolumns_", c + "_n_subcolumns_")):
            return "g_mass"
    if f in ("sub_col_beta_p_tot", "sub_col_alpha_p_tot", "sub_col_OD_tot", "sub_col_beta_att_tot"):
        return "ltot"
    return None


def val(v, inst=None, attr=None):
    return getattr(inst, attr) if v == "inst" else {"true": True, "false": False}.get(v, v)


def num(v, inst=None, attr=None):
    return getattr(inst, attr) if v == "inst" else float(v)


def hyd(v):
    return None if v == "all" else v.split("+")


def rngv(v):
    return None if v == "none" else tuple(float(x) for x in v.split("~"))


def dirv(v, inst):
    return inst.OD_from_sfc if v == "inst" else v == "up"


class Runner:
    """One scene, many sessions. insts: name -> instrument object (possibly customised)."""

    def __init__(self, base, insts, rng, drop=("_Vd_", "_sigma_d_")):
        self.base, self.insts, self.rng = base, insts, rng
        self.ids = Interner()
        self.inputs = set(base.ds.data_vars) - {f for f in base.ds.data_vars if group_of(f)}
        self.ev = []
        self.ref_inputs = self.dig_inputs(base)
        self.ref_settings = self.dig_settings(base)
        self.kwargs = {}

    def dig_inputs(self, m):
        fs = sorted(self.inputs)
        return self.ids("in", [self.ids("in:" + f, m.ds[f].values) if f in m.ds else -1 for f in fs])

    def dig_settings(self, m):
        skip = {"ds", "interpobj"}
        parts = [repr((k, str(v))) for k, v in sorted(m.__dict__.items()) if k not in skip]
        for n, i in sorted(self.insts.items()):
            parts += [repr((n, k, str(v))) for k, v in sorted(i.__dict__.items())
                      if isinstance(v, (int, float, str, bool, type(None), list, tuple)) or hasattr(v, "magnitude")]
            for t in ("mie_table", "scat_table"):
                tab = getattr(i, t, None)
                for k in sorted(tab or {}):
                    d = tab[k]
                    parts.append(repr((n, t, k, [(v, float(np.nansum(np.abs(d[v].values[np.isfinite(d[v].values)]))))
                                                 for v in sorted(d.data_vars)
                                                 if d[v].dtype.kind == "f" and d[v].size < 20000])))
        return self.ids("settings", np.array(parts))

    def digests(self, m, opaque=()):
        out = {}
        by = {}
        for f in m.ds.data_vars:
            g = group_of(f)
            if g and f not in self.inputs:
                by.setdefault(g, []).append(f)
        for g, fs in by.items():
            vals = []
            for f in sorted(fs):
                v = A(m, f)
                vals.append(self.ids("f:" + f, v))
            out[g] = -1 if g in opaque else self.ids("g:" + "|".join(sorted(fs)), vals) if vals else 0
        # groups are compared by which fields they hold and what those hold
        for g, fs in by.items():
            if out[g] != -1:
                out[g] = self.ids("gg:" + g, np.array(["|".join(sorted(fs)), str(out[g])]))
        return out

    def brief(self, kw, **usual):
        """What has its documented default may as well not be given."""
        return {k: v for k, v in kw.items() if k not in usual or v != usual[k] or self.rng.random() < .5}

    def do(self, m, o, par=False, chunk=None, user=None):
        """Perform one step; the model is updated in place or returned."""
        i = self.insts.get(o.get("inst"))
        k = o["k"]
        kw = dict(parallel=par, chunk=chunk)
        if k == "lid" or k == "rad":
            kw.update(OD_from_sfc=dirv(o["dir"], i), mie_for_ice=o["mie"] == "true",
                      use_rad_logic=o["route"] != "micro", use_empiric_calc=o["route"] == "empirical")
            if hyd(o["hyd"]) is not None:
                kw["hyd_types"] = hyd(o["hyd"])
            usual = dict(OD_from_sfc=True, mie_for_ice=False, use_rad_logic=True, use_empiric_calc=False)
            if k == "lid":
                kw["eta"] = num(o["eta"], i, "eta")
                return lm.calc_lidar_moments(i, m, o["cloud"] == "conv", **self.brief(kw, eta=1, **usual))
            if o["sw"] != "-":
                kw["calc_spectral_width"] = o["sw"] == "true"
            return rm.calc_radar_moments(i, m, o["cloud"] == "conv", **self.brief(kw, calc_spectral_width=True, **usual))
        anyl = self.insts.get("HSRL") if o.get("inst") == "-" else i
        if k == "ltot":
            return lm.calc_total_alpha_beta(m, **self.brief(dict(OD_from_sfc=dirv(o["dir"], self.cur or anyl),
                                                                 eta=num(o["eta"], self.cur or anyl, "eta")), OD_from_sfc=True, eta=1))
        if k == "ldr":
            return lm.calc_LDR_and_ext(m, **self.brief(dict(ext_OD=num(o["ext"], self.cur or anyl, "ext_OD"),
                                                            OD_from_sfc=dirv(o["dir"], self.cur or anyl), hyd_types=hyd(o["hyd"])),
                                                       ext_OD=4., OD_from_sfc=True, hyd_types=None))
        if k == "lcls":
            return cf.lidar_classify_phase(i, m, **self.brief(dict(convert_zeros_to_nan=o["nan"] == "true"), convert_zeros_to_nan=False))
        if k == "cosp":
            return cf.lidar_emulate_cosp_phase(i, m, **self.brief(
                dict(eta=num(o["eta"], i, "eta"), OD_from_sfc=dirv(o["dir"], i), hyd_types=hyd(o["hyd"]),
                     convert_zeros_to_nan=o["nan"] == "true"), eta=.7, OD_from_sfc=True, hyd_types=None, convert_zeros_to_nan=False))
        if k == "zmin":
            return at.calc_radar_Ze_min(i, m, **self.brief(dict(ref_rng=float(o["ref"])), ref_rng=1000.))
        if k == "rtot":
            return rm.calc_total_reflectivity(m, detect_mask=True)
        if k == "rcls":
            return cf.radar_classify_phase(i, m, **self.brief(dict(mask_height_rng=rngv(o["rng"]), convert_zeros_to_nan=o["nan"] == "true"),
                                                              mask_height_rng=None, convert_zeros_to_nan=False))
        if k == "fin":
            m.finalize_subcol_fields()
            return m
        if k == "gfrac":
            rad, N = o["route"] != "micro", self.N
            if m.process_conv:
                for x in m.hyd_types:
                    m = sc.set_convective_sub_col_frac(m, x, N_columns=N, use_rad_logic=rad)
            m = sc.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=par, chunk=chunk)
            m = sc.set_precip_sub_col_frac(m, is_conv=False, use_rad_logic=rad, parallel=par, chunk=chunk,
                                           precip_types=[x for x in m.hyd_types if x not in ("cl", "ci")])
            if m.process_conv:
                m = sc.set_precip_sub_col_frac(m, is_conv=True, use_rad_logic=rad, parallel=par, chunk=chunk,
                                               precip_types=[x for x in m.hyd_types if x not in ("cl", "ci")])
            return m
        if k == "gmass":
            rad = o["route"] != "micro"
            for x in m.hyd_types:
                m = sc.set_q_n(m, x, is_conv=False, qc_flag=x == "cl", use_rad_logic=rad, parallel=par, chunk=chunk)
                if m.process_conv:
                    m = sc.set_q_n(m, x, is_conv=True, qc_flag=False, use_rad_logic=rad, parallel=par, chunk=chunk)
            return m
        if k == "sim":
            kw.update(use_rad_logic=o["route"] != "micro", do_classify=o["cls"] == "true",
                      finalize_fields=o["fin"] == "true", skip_subcol_gen=o["gen"] == "skip",
                      subcol_gen_only=o["gen"] == "only")
            if o["route"] == "empirical":
                kw["use_empiric_calc"] = True
            g = lambda n: o[n] != "default" and o[n] != "-"
            if g("dir"):
                kw["OD_from_sfc"] = o["dir"] == "up"
            if g("mie"):
                kw["mie_for_ice"] = o["mie"] == "true"
            if g("eta"):
                kw["eta"] = float(o["eta"])
            if g("ext"):
                kw["ext_OD"] = float(o["ext"])
            if g("hyd"):
                kw["hyd_types"] = hyd(o["hyd"])
            if g("ref"):
                kw["ref_rng"] = float(o["ref"])
            if g("nan"):
                kw["convert_zeros_to_nan"] = o["nan"] == "true"
            if g("rng"):
                kw["mask_height_rng"] = rngv(o["rng"])
            if g("sw"):
                kw["calc_spectral_width"] = o["sw"] == "true"
            if chunk is None and self.rng.random() < .5:
                del kw["chunk"]
            for n, v in (("use_rad_logic", True), ("do_classify", False), ("finalize_fields", False), ("skip_subcol_gen", False),
                         ("subcol_gen_only", False), ("parallel", False)):
                if kw.get(n) is v and self.rng.random() < .3:      # the default
                    del kw[n]
            if self.rng.random() < .2:
                kw["unstack_dims"] = False
            return make_simulated_data(m, i, self.N, **kw)
        raise AssertionError(k)

    def session(self, ops, m=None, new=True, opaque=(), cur=None):
        """Run a session on a fresh copy of the scene, recording every step. cur: instrument whose own values
        'inst' stands for in steps that take no instrument."""
        m = clone(self.base) if m is None else m
        self.cur = self.insts[cur] if cur else None
        self.N = getattr(self, "Nsub", None) or m.num_subcolumns
        for n, o in enumerate(ops):
            par = self.rng.random() < .25
            sch = Scheduler(seed=self.rng.random()) if par else "synchronous"
            with using(sch):
                r, err = call(self.do, m, o, par, self.rng.choice([None, 1, 2]) if par else None)
            if r is not None:
                m = r
            self.ev.append({"new": bool(new and n == 0), "op": o, "err": err,
                            "dig": {} if err else self.digests(m, opaque),
                            "inputs": self.dig_inputs(m), "settings": self.dig_settings(m)})
            if err:
                break
        return m

    def trace(self, p3=False):
        return {"pre": sorted({group_of(f) for f in self.base.ds.data_vars} - {None}), "conv": bool(self.base.process_conv), "p3": p3, "inputs": self.ref_inputs,
                "settings": self.ref_settings, "ev": self.ev}
