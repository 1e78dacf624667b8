"""C22 stacking, cropping and reordering lose nothing (spec/Grid*.tla)."""
import itertools
import random

from grid import *
import vlib
from vlib import call


def build(rng, shp, nocoord):
    """A model whose fields hold whole numbers saying where they are from."""
    names = rng.choice([("time", "lat", "lon", "lev"), ("Time", "south_north", "west_east", "bottom_top"),
                        ("ncol", "y", "x", "height")])
    m = Model()
    m.time_dim, m.lat_dim, m.lon_dim, m.height_dim = names
    m.hyd_types = ["cl"]
    sz = {n: s for n, s in zip(names, shp) if s is not None}
    ds, crd = {}, {}
    for d in sz:
        if d == m.time_dim:
            t = sorted(rng.sample(range(0, 2000, 10), sz[d]))
            if m.time_dim == "ncol":
                rng.shuffle(t)
            crd[d] = (d, np.datetime64("2020-01-01") + np.array(t) * np.timedelta64(60, "s"))
        else:
            crd[d] = (d, np.array(rng.sample(range(-90, 90), sz[d]), float))
    subs = [list(s) for n in range(len(sz) + 1) for s in itertools.combinations(sz, n)]
    for i, s in enumerate(subs):
        if rng.random() < .25 and len(s) < len(sz):
            continue
        rng.shuffle(s)
        n = int(np.prod([sz[x] for x in s])) if s else 1
        v = rng.sample(range(1, 1000), n)
        ds["f%d" % i] = xr.DataArray(np.array(v, float).reshape([sz[x] for x in s]), dims=s,
                                     attrs={"units": "u%d" % i, "long_name": "x"} if rng.random() < .8 else {})
    keep = {d: v for d, v in crd.items() if not (nocoord and d != m.time_dim and rng.random() < .7)}
    m.ds = xr.Dataset(ds, coords=keep)
    if m.time_dim == "ncol" and rng.random() < .5 and "ncol" in sz:
        m.ds = m.ds.assign_coords(Times=("ncol", crd["ncol"][1]))
    return m


def when(t):
    return np.datetime64("2020-01-01") + np.timedelta64(int(t) * 60, "s")


def history(item, rng):
    shp, nocoord, rep = item
    m = build(rng, shp, nocoord)
    g = [m.lat_dim, m.lon_dim, m.time_dim]
    t0 = m.time_dim
    ev = [event("load", m)]
    d = "sizes %s %s" % (dict(m.ds.sizes), "without coordinates" if nocoord else "")
    ops = []
    for _ in range(rng.randint(3, 6)):
        stacked = m.stacked_time_dim is not None
        w = dict(stack=0 if stacked else 5, unstack=4 if stacked else .4, permute=1, crop=0 if stacked else 2,
                 box=0 if stacked else 1, sim=2 if stacked else .3)
        op = rng.choices(list(w), list(w.values()))[0]
        before = m.ds
        if op == "stack":
            if m.lon_dim in m.ds.dims and m.lat_dim not in m.ds.dims:
                continue
            col, od = rng.choice(["time_lat_lon", "column"]), rng.random() < .8
            c0 = snap(m)["c"]
            c0 = {x: c0[x]["v"] if x in c0 else [0] for x in g}
            was = list(m.ds.dims)
            r, err = call(m.check_and_stack_time_lat_lon, **({} if col == "time_lat_lon" and rng.random() < .5 and False
                                                            else dict(out_coord_name=col, order_dim=od)))
            e = event(op, m, err, g=g, col=col, first=True, c0=c0,
                      base=["subcolumn", m.time_dim, m.height_dim] if od else [])
        elif op == "unstack":
            sq, od = rng.random() < .6, rng.random() < .8
            r, err = call(m.unstack_time_lat_lon, order_dim=od, squeeze_single_dims=sq)
            e = event(op, m, err, g=g, squeeze=sq, first=True, base=["subcolumn", t0, m.height_dim] if od else [])
            if err and not stacked:
                ev.append(dict(e, f={}, c={}))
                m.ds = before
                ops.append(op + " refused")
                ev.append(event("note", m))
                continue
        elif op == "permute":
            first = rng.random() < .6
            base = rng.choice([None, [m.height_dim, m.time_dim]])
            if any(x not in m.ds.dims for x in (m.time_dim, m.height_dim)):
                continue
            r, err = call(m.permute_dims_for_processing, **dict(base_order=None if base is None else list(base),
                                                              base_dim_first=first))
            e = event(op, m, err, first=first, base=["subcolumn"] + (base or [m.time_dim, m.height_dim]))
        elif op == "crop":
            tc = "Times" if "Times" in m.ds.coords else m.time_dim
            if tc not in m.ds.coords or m.time_dim not in m.ds.dims or m.ds[tc].dtype.kind != "M":
                continue
            c = ints(m.ds[tc].values)
            lo, hi = sorted(rng.choice([x + rng.choice([0, 0, -3, 3]) for x in c] + [-50, 5000]) for _ in range(2))
            if lo == hi:
                hi += rng.choice([0, 5])
            tr = np.array([when(lo), when(hi)])
            r, err = call(m._crop_time_range, tr if rng.random() < .7 else tuple(tr),
                          **(dict(alter_coord="Times") if tc == "Times" else {}))
            e = event(op, m, err, tc=tc, lo=lo, hi=hi)
        elif op == "box":
            if not {"x", "y"} <= set(m.ds.dims) or not {"x", "y"} <= set(m.ds.coords):
                continue
            m.ds = m.ds.sortby("x").sortby("y")
            ev.append(event("note", m))
            c = {x: ints(m.ds[x].values) for x in "xy"}
            lo, hi = {}, {}
            for x in "xy":
                lo[x], hi[x] = sorted(rng.choice(c[x]) + rng.choice([0, 0, -1, 1]) for _ in range(2))
                if not [y for y in c[x] if lo[x] <= y <= hi[x]]:
                    lo[x], hi[x] = c[x][0], c[x][-1]
            r, err = call(m._crop_bounding_box_x_y, (lo["x"], lo["y"], hi["x"], hi["y"]))
            e = event(op, m, err, lo=lo, hi=hi)
        else:
            src = [n for n in m.ds.data_vars if set(m.ds[n].dims) == {m.time_dim, m.height_dim}]
            if not src or "r" in m.ds:
                continue
            N = rng.choice([1, 2, 3])
            err = ""
            m.num_subcolumns = N
            o = list(m.ds[src[0]].dims)
            v = m.ds[src[0]].values
            a = xr.DataArray(np.stack([v + 1000 * (s + 1) for s in range(N)]), dims=["subcolumn"] + o, attrs={"units": "r"})
            m.ds["r"] = a
            m.ds["r2"] = a.transpose(*rng.sample(list(a.dims), 3)) * 2
            e = event("sim", m, err)
        ops.append(op)
        ev.append(e)
        if e["err"]:
            break
    return d + " " + " ".join(ops), {"ev": ev}


def regional(item, rng):
    """A real simulation of a regional scene: each grid point gets what its column gets alone."""
    kind, rad, rep = item
    Y, X, T, H, N = rng.choice([1, 2, 3]), rng.choice([2, 3]), rng.choice([1, 2]), 3, rng.choice([1, 2])
    C = Y * X * T
    one = scene(rng, C, H, N, proc=False, dense=.6, relvar=np.full((C, H), 1e-36))
    for x in one.hyd_types:
        for f in ("strat_frac_", "strat_fracrad_"):
            one.ds[f + x].values[:] = (one.ds["strat_q_" + x].values > 0)
    inst = instrument("HSRL" if kind == "lidar" else "KAZR")
    cols = []
    for c in range(C):
        q = clone(one)
        q.ds = q.ds.isel(time=[c])
        cols.append(q)
    m = clone(one)
    lead = {"lat": Y, "lon": X, "time": T}
    o = rng.sample(sorted(lead), 3)
    perm = [list(lead).index(x) for x in o]
    ds = {}
    for n in one.ds.data_vars:
        v = one.ds[n].values.reshape(Y, X, T, H).transpose(*perm, 3)
        a = xr.DataArray(v, dims=o + ["height"], attrs=one.ds[n].attrs)
        ds[n] = a.transpose(*rng.sample(list(a.dims), 4))
    m.ds = xr.Dataset(ds, coords={"lat": np.array(rng.sample(range(90), Y), float),
                                  "lon": np.array(rng.sample(range(90), X), float),
                                  "time": np.arange(T) * 60., "height": np.arange(H) * 1.})
    d = "%s rad=%s %s x %s x %s dims %s" % (kind, rad, Y, X, T, o)
    ids = Ids()
    g = ["lat", "lon", "time"]
    ev = [event("load", m, ids=ids)]
    c0 = {x: snap(m, ids)["c"][x]["v"] for x in g}
    r, err = call(m.check_and_stack_time_lat_lon)
    ev.append(event("stack", m, err, ids, g=g, col="time_lat_lon", c0=c0, base=["subcolumn", m.time_dim, "height"]))
    if err:
        return d, {"ev": ev}
    un = rng.random() < .5

    def sim(m, u):
        return make_simulated_data(m, inst, N, do_classify=rng.random() < .5, parallel=False, use_rad_logic=rad,
                                   unstack_dims=u, finalize_fields=fin)
    fin = rng.random() < .5
    st = rng.getstate()
    m2 = clone(m)
    r, err = call(sim, m, False)
    ev.append(event("sim", m, err, ids))
    if err:
        return d, {"ev": ev}
    base = len(ev)
    f0 = set(one.ds.variables)
    # the columns, in the order of the stacked grid points
    order = {(ints(m2.ds["lat"].values)[i], ints(m2.ds["lon"].values)[i], ints(m2.ds["time"].values)[i]): i
             for i in range(C)}
    for c in rng.sample(range(C), min(C, 3)):
        y, x, t = c // (X * T), c // T % X, c % T
        rng.setstate(st)
        q, err = call(sim, cols[c], False)
        e = event("column", cols[c], err, ids, of=base,
                  col=order[(c0["lat"][y], c0["lon"][x], c0["time"][t])] + 1)
        if not err:
            for n in list(e["f"]):
                if "time" not in e["f"][n]["dims"] or n in f0:
                    del e["f"][n]
                else:
                    dd = e["f"][n]["dims"]
                    e["f"][n]["dims"] = [z for z in dd if z != "time"]
            e["size"].pop("time")
            for n in e["f"]:
                e["f"][n]["u"] = ev[base - 1]["f"].get(n, {"u": ""})["u"]
        ev.append(e)
    ev.append(event("note", m, ids=ids))
    if un:
        rng.setstate(st)
        r, err = call(sim, m2, True)
        m, sq = m2, True
    else:
        sq = rng.random() < .5
        r, err = call(m.unstack_time_lat_lon, squeeze_single_dims=sq)
    ev.append(event("unstack", m, err, ids, g=g, squeeze=sq, base=["subcolumn", "time", "height"]))
    return d, {"ev": ev}


SHAPES = [(2, 2, 2, 2), (2, 3, 2, 1), (1, 2, 2, 2), (3, 1, 2, 2), (2, 2, 1, 2), (2, 1, 1, 3), (2, 3, None, 2), (3, 1, None, 2),
          (None, 2, 2, 2), (None, 1, 1, 2), (3, None, None, 2), (None, 3, None, 2), (1, 1, 1, 2), (1, 1, 3, 2), (4, 2, 2, 1)]


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 22)
    k = dict(Ny=2, Nx=2, Nt=2, Nz=2, Ns=2, MaxSteps=6 if vlib.THOROUGH else 4)
    inv = ["InPlace", "Complete", "HalfOpen"]
    c.model("GridMC", dict(k, Bug='"none"'), inv, deadlock=False, workers=8)
    if vlib.THOROUGH:
        c.model("GridMC", dict(k, Bug='"none"', Ny=1, Nx=3, MaxSteps=5), inv, deadlock=False, workers=8)
    k["MaxSteps"] = 4
    for b, w in (("order", "InPlace"), ("noperm", "InPlace"), ("closed", "HalfOpen"), ("shift", "InPlace")):
        c.model("GridMC", dict(k, Bug='"%s"' % b), inv, expect=w, deadlock=False, workers=4)
    n = 40 if vlib.THOROUGH else 6
    traces = vlib.pmap(history, [(s, nc, i) for s in SHAPES for nc in (False, True) for i in range(n)])
    for x in ("HSRL", "KAZR"):
        instrument(x)
    traces += vlib.pmap(regional, [(kd, r, i) for kd in ("lidar", "radar") for r in (True, False)
                                   for i in range(20 if vlib.THOROUGH else 3)])
    c.info["operations"] = sum(len(t["ev"]) for _, t in traces)
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []

    def damage(op, cl, fn):
        ok = [t for t in good if any(e["op"] == op and e["f"] and any(len(set(x["v"])) > 1 for x in e["f"].values())
                                     for e in t["ev"])]
        for _ in range(2):
            t = copy.deepcopy(rng.choice(ok))
            i = [i for i, e in enumerate(t["ev"]) if e["op"] == op][-1]
            t["ev"] = t["ev"][:i + 1]
            if fn(t["ev"][i]):
                corrupt.append((cl, t))

    def swap(e):
        n = [x for x in sorted(e["f"]) if len(set(e["f"][x]["v"])) > 1]
        if not n:
            return False
        v = e["f"][rng.choice(n)]["v"]
        i = rng.randrange(1, len(v))
        j = [j for j in range(len(v)) if v[j] != v[i]]
        v[i], v[rng.choice(j)] = v[rng.choice(j)], v[i]
        return True

    def drop(e):
        e["f"].pop(rng.choice(sorted(e["f"])))
        return True

    def attr(e):
        e["f"][rng.choice(sorted(e["f"]))]["u"] = "[]x"
        return True
    for op in ("stack", "unstack", "permute"):
        damage(op, None, swap)
        damage(op, "fields_kept", drop)
        damage(op, "attributes_kept", attr)
    damage("crop", None, swap)
    damage("column", "columns_are_simulated_alone", swap)
    c.validate("GridTrace", traces, corrupt, workers=8)
