"""Models with simulated fields replaced by crafted ones (C13-C18)."""
from beams import *
from radar import sim_radar


def base(rng, N, T, H, proc, kind="lidar", inst=None, family="ModelE", sfc=True):
    m, err = call(gen, scene(rng, T, H, N, family=family, proc=proc, dense=0.7), N, True, rng.randrange(10**6))
    if err:
        return None, err
    if kind == "lidar":
        r, err = call(simulate_lidar, m, inst or instrument("HSRL"), "bulk", sfc, 1)
        if not err:
            r, err = call(lm.calc_LDR_and_ext, r, 4., sfc)
    else:
        def go():
            x = sim_radar(m, inst or instrument("KAZR"), "bulk", sfc, False)
            x = at.calc_radar_Ze_min(inst or instrument("KAZR"), x)
            return rm.calc_total_reflectivity(x, detect_mask=True)
        r, err = call(go)
    return r, err


def put(m, name, arr):
    """Overwrite a field, in the dimension order it has."""
    d = m.ds[name]
    o = [x for x in ORDER if x in d.dims]
    new = xr.DataArray(np.array(arr, float), dims=o).transpose(*d.dims)
    m.ds[name] = new.assign_attrs(d.attrs)


def snap(m, skip=()):
    return {k: m.ds[k].values.copy() for k in m.ds.variables if k not in skip}


def diff(m, s, skip=()):
    """Names of fields that changed or vanished."""
    out = []
    for k, v in s.items():
        if k in skip:
            continue
        if k not in m.ds.variables or m.ds[k].values.shape != v.shape or not (
                np.array_equal(m.ds[k].values, v, equal_nan=v.dtype.kind == "f")):
            out.append(k)
    return out
