"""Fixtures: small synthetic models and (cached) instruments driving the real emc2 code.

Everything here only *uses* the public surface of emc2 (Model subclassing, Instrument classes,
emc2.simulator.*); nothing is patched.
"""
import os
import sys
import io
import contextlib
import warnings

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("DASK_SCHEDULER", "synchronous")
sys.dont_write_bytecode = True
REPO = os.environ.get("EMC2_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

with contextlib.redirect_stdout(io.StringIO()):
    import numpy as np
    import xarray as xr
    import dask
    import emc2
    from emc2.core import Model
    from emc2.core.instrument import ureg, quantity
np.seterr(all="ignore")
dask.config.set(scheduler="synchronous")

CLASSES = ["cl", "ci", "pl", "pi"]


class quiet:
    """Silence the code under test (it prints progress)."""

    def __enter__(self):
        self._c = contextlib.ExitStack()
        self._c.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        self._w.__exit__(*a)
        self._c.__exit__(*a)
        return False


class Synth(Model):
    """A small configurable model: T times x H heights, user supplied fractions and mixing ratios.

    frac[cloud][cls], q[cloud][cls] : (T,H) arrays; separate conv/strat mixing-ratio fields and separate
    rad / micro fraction fields so that wiring errors between them are observable.
    """

    def __init__(self, T, H, frac=None, frac_rad=None, q=None, N=None, re=None, z=None, p=None, t=None,
                 family="ModelE", mcphys="MG2", process_conv=True, classes=CLASSES, relvar=None,
                 model_name="", fluffy=True, units=None):
        Model.__init__(self)
        classes = list(classes)
        u = units or {}
        shp = (T, H)
        z = np.tile(np.arange(1, H + 1) * 500., (T, 1)) if z is None else np.asarray(z, float)
        t = 288. - 0.0065 * z if t is None else np.asarray(t, float)
        p = 1013. * (t / 288.) ** 5.256 if p is None else np.asarray(p, float)
        ds = {}

        def put(name, arr, unit, dims=("time", "height")):
            ds[name] = xr.DataArray(np.array(arr, dtype=float), dims=dims, attrs={"units": unit})

        put("p_3d", p, "hPa")
        put("t", t, "kelvin")
        put("z", z, "meter")
        put("q", np.full(shp, 1e-3), "kg/kg")
        zero = {c: np.zeros(shp) for c in classes}
        frac = frac or {}
        q = q or {}
        for cloud in ("strat", "conv"):
            for c in classes:
                f = frac.get(cloud, zero).get(c, zero[c])
                fr = (frac_rad or frac).get(cloud, zero).get(c, zero[c])
                put(f"{cloud}_frac_{c}", f, "1")
                put(f"{cloud}_fracrad_{c}", fr, "1")
                put(f"{cloud}_q_{c}", q.get(cloud, zero).get(c, zero[c]), "kg/kg")
        rdef = {"cl": 10., "ci": 40., "pl": 200., "pi": 300.}
        for c in classes:
            put(f"n_{c}", (N or {}).get(c, np.full(shp, {"cl": 100., "ci": 0.05, "pl": 0.001,
                                                        "pi": 0.003}.get(c, 0.003))), "cm-3")
            for cloud, fac in (("strat", 1.), ("conv", 1.25)):
                put(f"{cloud}_re_{c}", fac * ((re or {}).get(c, np.full(shp, rdef.get(c, 300.)))), "micrometer")
        if relvar is not None:
            put("relvar", relvar, "1")
            self.strat_relvar_name = "relvar"
        if family in ("CESM", "P3"):
            for c in classes:
                if c in ("cl", "pl"):
                    put(f"mu_{c}", np.full(shp, 5. if c == "cl" else 0.), "1")
                    put(f"lam_{c}", np.full(shp, 6e5 if c == "cl" else 5e3), "1/m")
            self.mu_field = {c: (f"mu_{c}" if c in ("cl", "pl") else None) for c in classes}
            self.lambda_field = {c: (f"lam_{c}" if c in ("cl", "pl") else None) for c in classes}
        ds["time"] = xr.DataArray(np.arange(T) * 600., dims=("time",), attrs={"units": "seconds"})
        rho = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250.}
        kg = ureg.kg / (ureg.m ** 3)
        one = ureg.dimensionless
        self.Rho_hyd = {c: rho.get(c, 250.) * kg for c in classes}
        self.fluffy = {c: 0.5 * one for c in classes if c not in ("cl", "pl")} if fluffy else None
        self.lidar_ratio = {c: {"cl": 18., "ci": 24., "pl": 5.5, "pi": 24.}.get(c, 24.) * one for c in classes}
        self.LDR_per_hyd = {c: {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.40}.get(c, 0.4) / kg for c in classes}
        self.vel_param_a = {c: {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72}.get(c, 11.72) for c in classes}
        self.vel_param_b = {c: {"cl": 2., "ci": 1., "pl": 0.8, "pi": 0.41}.get(c, 0.41) * one for c in classes}
        self._add_vel_units()
        self.q_names_convective = {c: f"conv_q_{c}" for c in classes}
        self.q_names_stratiform = {c: f"strat_q_{c}" for c in classes}
        self.conv_re_fields = {c: f"conv_re_{c}" for c in classes}
        self.strat_re_fields = {c: f"strat_re_{c}" for c in classes}
        self.N_field = {c: f"n_{c}" for c in classes}
        self.conv_frac_names = {c: f"conv_frac_{c}" for c in classes}
        self.strat_frac_names = {c: f"strat_frac_{c}" for c in classes}
        self.conv_frac_names_for_rad = {c: f"conv_fracrad_{c}" for c in classes}
        self.strat_frac_names_for_rad = {c: f"strat_fracrad_{c}" for c in classes}
        self.p_field, self.z_field, self.T_field, self.q_field = "p_3d", "z", "t", "q"
        self.time_dim, self.height_dim = "time", "height"
        self.hyd_types = list(classes)
        self.process_conv = process_conv
        self.mcphys_scheme = mcphys
        self.rad_scheme_family = family
        self.model_name = model_name
        self.Vd_rhoa_scaling_ref = {c: 1.0 for c in classes}
        self.ds = xr.Dataset(ds)
        self._calc_air_density()


class SynthP3(Synth, emc2.core.model.E3SMv3):
    """Single-ice-category (P3) variant: ice described by rime fraction, rime density and normalised mass."""

    def __init__(self, T, H, rng, classes=("cl", "ci", "pl"), hybrid=0, **kw):
        Synth.__init__(self, T, H, classes=classes, family="P3", mcphys="P3", **kw)
        self.process_conv = False
        self.p3_kws = {"in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": hybrid}
        lut = instrument("KAZR").scat_table["p3_ice"]
        q, f = self.ds["strat_q_ci"].values, self.ds["strat_frac_ci"].values
        mk = lambda fn: np.array([[fn() for _ in range(H)] for _ in range(T)])
        with np.errstate(all="ignore"):
            ni = self.ds["n_ci"].values * 1e6 / f
            fr = np.where(q > 0, mk(rng.random), np.nan)
            rr = np.where(q > 0, mk(lambda: rng.uniform(60, 890)), np.nan)
            qn = q / f / ni
        for n, v in (("in_cld_Ni", ni), ("Fr", fr), ("rho_r", rr), ("qi_norm", qn)):
            self.ds[n] = xr.DataArray(v, dims=("time", "height"))
        fr, rr, qn = self.limit_input_data_to_p3_lut_range(lut)
        self.ds["Fr"].values, self.ds["rho_r"].values, self.ds["qi_norm"].values = fr, rr, qn
        self.interp_p3_ice_psd_params_to_grid(lut)
        self.mu_field["ci"], self.lambda_field["ci"] = "mu_ice", "lambda_ice"
        from scipy.interpolate import RegularGridInterpolator as RGI
        self.interpobj = {"single": {}, "bulk": {}}
        for k in ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "vt_m_weight", "Z", "ri_eff", "Dm_m_weight",
                  "rho_m_weight"):
            self.interpobj["bulk"][k] = RGI((lut["Fr"].values, lut["rho_r"].values, lut["q_norm"].values),
                                            lut[k].values, bounds_error=False)
        for k in ("vt", "A", "V"):
            self.interpobj["single"][k] = RGI((lut["Fr"].values, lut["rho_r"].values, lut["p_diam"].values),
                                              lut[k].values, bounds_error=False)
        self.Vd_rhoa_scaling_ref = {"cl": None, "ci": 0.8254, "pl": 1.1}


_INST = {}


def instrument(name):
    """Load an instrument once per process."""
    if name not in _INST:
        with quiet():
            ins = emc2.core.instruments
            _INST[name] = {"KAZR": lambda: ins.KAZR("nsa"), "WACR": lambda: ins.WACR("sgp"),
                           "HSRL": lambda: ins.HSRL(), "CEIL": lambda: ins.CEIL(),
                           "RL": lambda: ins.RL(), "XSACR": lambda: ins.XSACR(),
                           "CSAPR": lambda: ins.CSAPR(), "NEXRAD": lambda: ins.NEXRAD(),
                           "MWACR": lambda: ins.MWACR("awr"), "BASTA": lambda: ins.BASTA("micre"),
                           "1064nm": lambda: ins.Ten64nm()}[name]()
    return _INST[name]
