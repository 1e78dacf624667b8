"""C23 saving, loading, finalizing, clearing (spec/Archive*.tla)."""
import os
import random
import shutil
import tempfile

from grid import *
from digest import Interner
import vlib
from vlib import call


def attrs(a):
    return str(sorted((k, [str(x) for x in np.ravel(v)]) for k, v in a.attrs.items()))


def record(ids, ds):
    out = {}
    for n in ds.variables:
        if n in ("subcolumn", "time"):
            continue
        v = ds[n].values
        if v.dtype.kind == "M":
            v = ints(v)
        v = np.asarray(v).astype(float)
        out[str(n)] = {"id": ids("v:" + n, v), "zid": ids("v:" + n, np.where(v == 0, np.nan, v)), "dims": list(ds[n].dims),
                       "u": attrs(ds[n])}
    return out


def job(item, rng):
    fam, kind, rep = item
    N, T, H = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), 4
    proc = fam == "ModelE" and rng.random() < .7
    kw = {} if fam == "P3" else {"relvar": np.full((T, H), 1e-36)}
    m = scene(rng, T, H, N, family=fam, proc=proc, dense=.55, **kw)
    # all-or-nothing covers: no chance in the generator, so equal calls give equal results
    for cl in ("strat", "conv"):
        for x in m.hyd_types:
            on = m.ds["%s_q_%s" % (cl, x)].values > 0
            if cl == "conv":
                on = on & False if rng.random() < .3 else on
            for f in ("frac", "fracrad"):
                m.ds["%s_%s_%s" % (cl, f, x)].values[:] = on
    m.ds["time"] = ("time", when0(T))
    inst = instrument("HSRL" if kind == "lidar" else "KAZR")
    rad = fam == "P3" or rng.random() < .5
    cls = rng.random() < .6
    if rng.random() < .5:
        m.ds["strat_note"] = xr.DataArray(np.zeros(T), dims="time", attrs={"units": "1", "flags": [1, 2]})
    ids = Interner()
    fresh = clone(m)
    inputs = record(ids, m.ds)
    tmp = tempfile.mkdtemp(prefix="c23_")
    path = os.path.join(tmp, "a.nc")
    ev = [dict(op="start", err="", ref=0, more=[], cloud="", ds=record(ids, m.ds), file={})]
    ops, file, sims, dirty = [], {}, {}, False

    def done(op, err, **kw):
        ev.append(dict(dict(op=op, err=err, ref=0, more=[], cloud="", ds={} if err else record(ids, m.ds), file=file), **kw))
        ops.append(op)
        return not err

    def simulate(m):
        return make_simulated_data(m, inst, N, do_classify=cls, parallel=False, use_rad_logic=rad, finalize_fields=False)

    def conflict(ds):
        with xr.open_dataset(path) as f:                  # a merge needs exact equality
            return any(n in ds and not ds[n].equals(f[n]) for n in f.variables)
    try:
        plan = ["sim"] + [rng.choice(["sim", "save", "save", "load", "fresh", "finalize", "clear", "processed"])
                          for _ in range(7 if vlib.THOROUGH else 6)]
        for op in plan:
            if op == "sim":
                if dirty:                                 # finalized subcolumn inputs are no inputs any more
                    continue
                r, err = call(simulate, m, timeout=120)
                ok = done("sim", err, ref=sims.get(1, 0))
                sims.setdefault(1, len(ev))
            elif op == "save":
                before = file
                if os.path.exists(path):
                    os.unlink(path)
                r, err = call(m.subcolumns_to_netcdf, path)
                if not err:
                    with xr.open_dataset(path) as f:
                        file = record(ids, f.load())
                ok = done("save", err)
            elif op == "load":
                if not file or conflict(m.ds):
                    continue
                r, err = call(m.load_subcolumns_from_netcdf, path)
                ok = done("load", err)
            elif op == "fresh":
                m = clone(fresh)
                dirty = False
                ok = done("start", "")
                if file and not conflict(m.ds):
                    r, err = call(m.load_subcolumns_from_netcdf, path)
                    ok = done("load", err)
                    dirty = any(x["op"] == "finalize" for x in ev)
            elif op == "finalize":
                sub = [n for n in m.ds.data_vars if "subcolumn" in m.ds[n].dims and m.ds[n].dtype.kind == "f" and
                       n.startswith(("hyd_ext", "ext_mask", "strat_q_sub"))]
                sub = [n for n in sub if not any(n in x and n != x for x in m.ds.data_vars)]
                more = rng.sample(sub, min(len(sub), rng.choice([0, 0, 1, 2])))
                r, err = call(m.finalize_subcol_fields, **(dict(more_fieldnames=list(more)) if more or rng.random() < .3 else {}))
                ok = done("finalize", err, more=more)
                dirty = dirty or bool(more)
            elif op == "clear":
                cl = rng.choice(["strat", "conv"])
                kw = {} if cl == "conv" and rng.random() < .5 else {"cloud_class": cl}
                r, err = call(m.remove_subcol_fields, **kw)
                ok = done("clear", err, cloud=cl)
            elif op == "processed":
                if not file or fam == "P3":
                    continue
                # a new object made from the processed file alone
                r, err = call(lambda: em.ModelE(path, load_processed=True))
                q = m
                m = r if not err else m
                ev.append(dict(ev[0], op="start", ds=inputs, file=file))
                ok = not err
                got = {} if err else record(ids, m.ds)
                ev[-1] = dict(op="start", err="", ref=0, more=[], cloud="", ds={}, file=file, blank=True)
                ev.append(dict(op="load", err=err, ref=0, more=[], cloud="", ds=got, file=file, blank=True))
                m = q
                ev.append(dict(op="start", err="", ref=0, more=[], cloud="", ds=record(ids, m.ds), file=file))
                ops.append("processed")
            if not ok:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d = "%s %s rad=%s conv=%s classify=%s N=%s: %s" % (fam, kind, rad, proc, cls, N, " ".join(ops))
    for e in ev:
        e.setdefault("blank", False)
    return d, {"ev": ev, "inputs": inputs}


def when0(T):
    return np.datetime64("2020-01-01") + np.arange(T) * np.timedelta64(600, "s")


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 23)
    for x in ("HSRL", "KAZR"):
        instrument(x)
    inv = ["SaveOK", "LoadOK", "FinalizeOK", "ClearOK", "InputsStay"]
    c.model("ArchiveMC", dict(Bug='"none"', MaxSteps=6 if vlib.THOROUGH else 5), inv, deadlock=False, workers=8)
    for b, w in (("keys", "SaveOK"), ("attrs", "LoadOK"), ("finall", "any"), ("ext", "ClearOK"), ("clearall", "any")):
        c.model("ArchiveMC", dict(Bug='"%s"' % b, MaxSteps=4), inv, expect=w, deadlock=False, workers=4)
    its = [(f, kd, i) for i in range(30 if vlib.THOROUGH else 6) for f in ("ModelE", "CESM", "P3", "ModelE")
           for kd in ("lidar", "radar")]
    traces = vlib.pmap(job, its)
    c.info["operations"] = sum(len(t["ev"]) for _, t in traces)
    good = [t for _, t in traces if all(not e["err"] for e in t["ev"])]
    corrupt = []
    for op, cl, what in (("save", "saved_every_subcolumn_field", "drop"), ("save", "saved_as_it_is", "file"),
                         ("save", "saving_changes_nothing", "id"), ("load", None, "id"),
                         ("load", "loaded_every_field", "dropds"), ("finalize", "only_zeros_undefined", "id"),
                         ("clear", "exactly_the_fields_cleared", "dropds"), ("clear", "others_untouched", "id")):
        ok = [(t, i) for t in good for i, e in enumerate(t["ev"]) if e["op"] == op and len(e["ds"]) > 3
              and (op == "clear" or len(e["file"]) > 3 or op == "finalize")]
        for _ in range(3):
            t, i = rng.choice(ok)
            t = copy.deepcopy(t)
            t["ev"] = t["ev"][:i + 1]
            e = t["ev"][i]
            sub = [n for n in sorted(e["ds"]) if "subcolumn" in e["ds"][n]["dims"] and n not in t["inputs"]]
            if not sub:
                continue
            n = rng.choice(sub)
            if what == "drop":
                del e["file"][n]
            elif what == "file":
                e["file"][n]["dims"] = e["file"][n]["dims"][::-1]
            elif what == "id":
                e["ds"][n]["id"] = 10 ** 6
            else:
                del e["ds"][n]
            corrupt.append((cl, t))
    c.validate("ArchiveTrace", traces, corrupt, workers=8)
