"""Scenes and drivers shared by the radar / lidar checks (C06-C21)."""
import copy
import math

import numpy as np
import xarray as xr

from emcfix import Synth, SynthP3, CLASSES, instrument, ureg, quantity
from emc2.simulator import subcolumn as sc
from emc2.simulator.main import make_simulated_data
from emc2.simulator import radar_moments as rm, lidar_moments as lm, classification as cf, attenuation as at
from vlib import lg, lgs, fx, fxs, call, NZERO, NINF, NNAN

ORDER = ("subcolumn", "time", "height")
RADARS = ["KAZR", "WACR"]
LIDARS = ["HSRL", "CEIL"]


# the sets of hydrometeor classes of the models: most; with graupel; with snow, graupel and hail (NSSL);
# with rimed ice (DHARMA)
SETS = [CLASSES, CLASSES + ["gr"], ["cl", "ci", "pl", "sn", "gr", "ha"], CLASSES + ["pir"]]


def scene(rng, T=3, H=6, N=4, family="ModelE", classes=None, proc=True, dense=0.5, z=None, heavy=False, lift=0, **kw):
    """A model with random cloud scenes (no subcolumns yet). Heights in whole metres, unevenly spaced."""
    if classes is None:
        classes = SETS[rng.choice([0, 0, 0, 0, 1, 2, 2, 3])] if family != "P3" else CLASSES
    if family != "P3" and "mcphys" not in kw:
        # schemes other than MG2: NSSL with its own classes and fall speeds, the others at large
        kw["mcphys"] = rng.choice(["nssl", "MG2"] if "ha" in classes else ["MG2"] * 5 + ["MG", "morrison"])
    if z is None:
        z = np.array([np.cumsum([rng.randint(20, 400)] + [rng.randint(40, 900) for _ in range(H - 1)])
                      for _ in range(T)], float) + lift
    mk = lambda f: np.array([[f() for _ in range(H)] for _ in range(T)])
    frac, frad, q, Nn, re = {}, {}, {}, {}, {}
    for cl in ("strat", "conv"):
        frac[cl], frad[cl], q[cl] = {}, {}, {}
        for x in classes:
            on = mk(lambda: float(rng.random() < dense))
            frac[cl][x] = on * mk(lambda: rng.choice([0.3, 0.55, 0.8, 1.0]))
            frad[cl][x] = on * mk(lambda: rng.choice([0.3, 0.55, 0.8, 1.0]))
            top = -3.2 if heavy else -4.3
            q[cl][x] = on * mk(lambda: 10 ** rng.uniform(-7, top) * (1 if x != "cl" else 3))
    base = {"cl": 100., "ci": 0.05, "pl": 0.001, "pi": 0.003}
    rbase = {"cl": 10., "ci": 40., "pl": 200., "pi": 300.}
    for x in classes:
        Nn[x] = mk(lambda: base.get(x, 0.003) * 10 ** rng.uniform(-.5, .5))
        re[x] = mk(lambda: rbase.get(x, 300.) * rng.uniform(0.7, 1.3))
    if family == "P3":
        m = SynthP3(T, H, rng, [x for x in classes if x != "pi"], kw.pop("hybrid", rng.choice([0, 0, 1, 2])), frac=frac,
                    frac_rad=frad, q=q, N=Nn, re=re, z=z, **kw)
        for x in ("cl", "pl"):
            m.ds["mu_" + x].values[:] = mk(lambda: rng.uniform(2.5, 14) if x == "cl" else 0.)
            m.ds["lam_" + x].values[:] = mk(lambda: 10 ** rng.uniform(5.2, 6.2) if x == "cl" else
                                           10 ** rng.uniform(3.2, 4.0))
        return m
    m = Synth(T, H, frac=frac, frac_rad=frad, q=q, N=Nn, re=re, z=z, family=family, classes=classes,
              process_conv=proc, **kw)
    if family == "CESM":
        for x in ("cl", "pl"):
            if x in classes:
                m.ds["mu_" + x].values[:] = mk(lambda: rng.uniform(2.5, 14) if x == "cl" else 0.)
                m.ds["lam_" + x].values[:] = mk(lambda: 10 ** rng.uniform(5.2, 6.2) if x == "cl" else
                                               10 ** rng.uniform(3.2, 4.0))
    return m


def gen(m, N, rad, seed=0):
    np.random.seed(seed)
    m.process_conv_saved = m.process_conv
    return make_simulated_data(m, instrument("KAZR"), N, use_rad_logic=rad, subcol_gen_only=True, parallel=False)


def clone(m):
    """Independent copy of a model object (shares nothing mutable but interpolation tables)."""
    n = copy.copy(m)
    n.ds = m.ds.copy(deep=True)
    for k, v in list(n.__dict__.items()):
        if isinstance(v, (dict, list)) and k not in ("interpobj",):
            n.__dict__[k] = copy.deepcopy(v)
        if k == "interpobj":
            n.interpobj = {x: dict(y) for x, y in v.items()}
    return n


ROUTES = ["bulk", "micro", "empirical"]


def rkw(route):
    return {"bulk": dict(use_rad_logic=True), "micro": dict(use_rad_logic=False),
            "empirical": dict(use_rad_logic=True, use_empiric_calc=True)}[route]


def moments(m, inst, cloud, route, sfc=True, **kw):
    """calc_*_moments through the public entry point."""
    args = dict(parallel=False, OD_from_sfc=sfc)
    args.update(rkw(route))
    args.update(kw)
    fn = rm.calc_radar_moments if inst.instrument_class.lower() == "radar" else lm.calc_lidar_moments
    return fn(inst, m, cloud == "conv", **args)


def clouds(m):
    return ["strat", "conv"] if m.process_conv else ["strat"]


def A(m, name):
    """Field as (subcolumn, time, height) or (time, height) array."""
    d = m.ds[name]
    o = [x for x in ORDER if x in d.dims]
    if len(o) != d.ndim:
        o = list(d.dims)
    return d.transpose(*o).values


def zint(m):
    u = {"meter": 1., "m": 1., "km": 1e3, "kilometer": 1e3}[m.ds[m.z_field].attrs["units"]]
    return np.rint(m.ds[m.z_field].values * u).astype(int)


def dB(x):
    """10 log10 in units of 1e-5 dB; 0 -> Zero, nan -> Nan."""
    x = float(x)
    if math.isnan(x) or x < 0:
        return NNAN
    if x == 0:
        return NZERO
    if math.isinf(x):
        return NINF
    return int(round(10 * math.log10(x) * 1e5))


def dbf(x):
    """A value already in dB, in units of 1e-5 dB."""
    x = float(x)
    return NNAN if math.isnan(x) else (NINF if x > 0 else -NINF) if math.isinf(x) else int(round(x * 1e5))


def norm(vals, target=1e8):
    """Unit so that the largest finite value maps to target."""
    v = [abs(float(x)) for x in np.ravel(vals) if np.isfinite(x)]
    mx = max(v) if v else 0.
    return mx / target if mx > 0 else 1.


def routes(rng, thorough=False, lidar=False):
    """Combinations of calculation route, scheme family, ice scattering and looking direction."""
    out = []
    for route in ROUTES:
        for fam in (["ModelE", "CESM", "P3"] if route != "empirical" else ["ModelE"]):
            for mie in ([True, False] if route != "empirical" else [False]):
                for sfc in (True, False):
                    out.append((route, fam, mie, sfc))
    return out


def big(rng, N, T, H):
    """Now and then a scene that is large in one direction."""
    return rng.choice([(1, 1, 40), (50, 1, 3), (1, 30, 3)]) if rng.random() < .1 else (N, T, H)
