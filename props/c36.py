"""C36 every result says what it is and how it was made (spec/Label.tla, LabelMC.tla, LabelTrace.tla)."""
import copy
import random
import re

from session import *
from c08 import parse_plan, custom, ONE
import vlib

WORDS = ["backscatter", "extinction", "optical depth", "attenuated", "attenuation", "reflectivity", "doppler velocity", "spectral width",
         "transmittance", "depolarization", "mask", "scattering ratio", "liquid", "ice"]
SAYS = [("becomes", "becomes"), ("not extinct", "clear"), ("extinct", "extinct"), ("below", "below"), ("detected", "detected"),
        ("yes", "yes"), ("no", "no")]


def key_of(v, classes, insts):
    """field name -> (kind, class, cloud, instrument) or None"""
    x = "|".join(classes)
    for pat, kind in ((r"sub_col_beta_p_(%s|tot)_(strat|conv)$" % x, "beta"), (r"sub_col_alpha_p_(%s|tot)_(strat|conv)$" % x, "alpha"),
                      (r"sub_col_OD_(%s|tot)_(strat|conv)$" % x, "od"), (r"sub_col_beta_att_(tot)_(strat|conv)$", "batt"),
                      (r"sub_col_Ze_att_(tot)_(strat|conv)$", "zatt"), (r"sub_col_Ze_(%s|tot)_(strat|conv)$" % x, "ze"),
                      (r"sub_col_Vd_(%s|tot)_(strat)$" % x, "vd"), (r"sub_col_sigma_d_(%s|tot)_(strat)$" % x, "sd")):
        m = re.match(pat, v)
        if m:
            return (kind, m[1], m[2], "-")
    for pat, kind in ((r"(strat|conv)_frac_subcolumns_(%s)$" % x, "frac"), (r"(strat|conv)_q_subcolumns_(%s)$" % x, "q"),
                      (r"(strat|conv)_n_subcolumns_(%s)$" % x, "n")):
        m = re.match(pat, v)
        if m:
            return (kind, m[2], m[1], "-")
    one = {"sub_col_beta_p_tot": "beta", "sub_col_alpha_p_tot": "alpha", "sub_col_OD_tot": "od", "sub_col_beta_att_tot": "batt",
           "sub_col_Ze_tot": "ze", "sub_col_Ze_att_tot": "zatt"}
    if v in one:
        return (one[v], "tot", "all", "-")
    if v in ("Ze_min", "atm_ext", "kappa_att", "detect_mask"):
        return ({"Ze_min": "zmin", "atm_ext": "atmext", "kappa_att": "gas", "detect_mask": "detect"}[v], "-", "-", "-")
    if v == "ext_mask":
        return ("ext", "-", "all", "-")
    m = re.match(r"sub_col_LDR_(strat|conv|tot)$", v) or re.match(r"hyd_ext_(strat|conv)$", v)
    if m:
        return ("ldr" if "LDR" in v else "hydext", "-", m[1].replace("tot", "all"), "-")
    m = re.match(r"COSP_(ATBtot|ATBcross|SR)_(strat|conv|all_hyd)$", v)
    if m:
        return ({"ATBtot": "atb", "ATBcross": "atbx", "SR": "sr"}[m[1]], "-", m[2].replace("_hyd", ""), "-")
    m = re.match(r"(?:(strat|conv)_COSP_phase_mask|COSP_phase_mask_all_hyd)$", v)
    if m:
        return ("cmask", "-", m[1] or "all", "-")
    for i in insts:
        for suf, kind in (("_sounding", "rmask"), ("", "lmask")):
            if v == "phase_mask_%s%s_all_hyd" % (i, suf):
                return (kind, "-", "all", i)
            for c in ("strat", "conv"):
                if v == "%s_phase_mask_%s%s" % (c, i, suf):
                    return (kind, "-", c, i)
    return None


def unit(u):
    u = re.sub(r"\s+", " ", re.sub(r"[\${}^]|\\mathrm", "", str(u)).replace("\\", "").replace("~", " ")).strip()
    return "1" if u.lower() in ("", "1", "unitless", "dimensionless", "none") else u


def label(v, a, key, classes, insts):
    t = str(a.get("long_name", "")).lower()
    toks = re.findall(r"[a-z0-9]+", t)
    codes = []
    leg = a.get("legend")
    if leg is not None:
        codes = [[n + 1, str(x).lower()] for n, x in enumerate(leg)]
    else:
        for n, s in re.findall(r"(\d)\s*=\s*([^,;]*)", str(a.get("units", ""))):
            codes.append([int(n), next((w for p, w in SAYS if p in s.lower()), s)])
    s, c = "strat" in t, "conv" in t
    base, top = "layer base" in t, "layer top" in t
    if ("from surface" in t and top) or ("from toa" in t and base):
        base = top = True
    return dict(kind=key[0], cls=key[1], cloud=key[2], inst=key[3], unit="codes" if codes and leg is None else unit(a.get("units", "?")), codes=codes,
                words=[w for w in WORDS if (w in toks if w in ("ice", "liquid", "mask") else w in t)], about="both" if s and c else "strat" if s else "conv" if c else "none",
                named=sorted(set(classes) & set(toks)), says_inst=key[3].lower() in t, method=str(a.get("Processing method", "-")),
                db=str(a.get("Ice scattering database", "-")), edge="both" if base and top else "base" if base else "top" if top else "-")


class Labels(Runner):
    def do(self, m, o, par=False, chunk=None, user=None):
        if o["k"] == "atb":
            i = self.insts[o["inst"]]
            return cf.lidar_emulate_cosp_phase(i, m, eta=num(o["eta"], i, "eta"), OD_from_sfc=dirv(o["dir"], i), hyd_types=hyd(o["hyd"]),
                                               convert_zeros_to_nan=o["nan"] == "true", output_ATB=True)
        return super().do(m, o, par, chunk, user)

    def digests(self, m, opaque=()):
        out = []
        for v in m.ds.data_vars:
            k = key_of(v, m.hyd_types, sorted(self.insts))
            if k:
                out.append(label(v, m.ds[v].attrs, k, m.hyd_types, self.insts))
        self.n = getattr(self, "n", 0) + len(out)
        return out


def short(ops, rng):
    """Steps again, in another way of doing them."""
    out = []
    for o in ops:
        o = dict(o)
        if o["k"] == "cosp" and rng.random() < .5:
            o["k"] = "atb"
        out.append(o)
    return out


def job(item, rng):
    fam, conv, ready, plans = item
    N = rng.choice([1, 2, 3])
    d = "labels %s conv=%s subcolumns=%s" % (fam, conv, "given" if ready else "generated")
    kw = {"hybrid": rng.choice([0, 1, 2])} if fam == "P3" else {"relvar": np.full((2, 4), 1e-36)}
    m, err = call(scene, rng, 2, 4, N, family=fam, proc=conv, dense=.6, heavy=True, **kw)
    T = dict(classes=[], conv=conv, p3=fam == "P3", fam=fam, ready=ready, legend={}, gen=[], ev=[])
    rad = rng.random() < .5
    E = lambda k, **w: dict(dict.fromkeys(FIELDS, "-"), k=k, **w)
    T["gen"] = [E(k, route="bulk" if rad else "micro") for k in ("gfrac", "gmass")]
    if not err and ready:
        m, err = call(gen, m, N, rad, rng.randrange(10 ** 6))
    if err:
        T["ev"] = [dict(new=True, op=E("fin"), err=err, up=True, labels=[])]
        return d, T
    R = Labels(m, custom(rng), rng)
    R.Nsub = N
    T["classes"] = list(m.hyd_types)
    for n, i in R.insts.items():
        if getattr(i, "beta_p_phase_thresh", None):
            T["legend"][n] = [[int(x["class_ind"]), str(x["class"]).lower()] for x in i.beta_p_phase_thresh]
    w, n = None, 0
    for o, steps in plans:
        for seq in rng.sample(([o], short(steps, rng)), rng.choice([1, 2])):
            keep = w is not None and rng.random() < .7              # go on with the same object
            start = len(R.ev)
            w = R.session(seq, m=w if keep else None, new=not keep, cur=o["inst"])
            for e in R.ev[start:]:
                e["up"] = bool(R.insts[o["inst"]].OD_from_sfc)
            if R.ev[-1]["err"]:
                w = None
    for e in R.ev:
        T["ev"].append(dict(new=e["new"], op=e["op"], err=e["err"], up=e["up"], labels=e["dig"] or []))
    return d, T


def run(c):
    rng = random.Random(vlib.SEED * 7919 + 36)
    th = vlib.THOROUGH
    inv = ["Truthful", "Sound"]
    c.model("LabelMC", dict(D=3 if th else 2, Bug='"none"'), inv, deadlock=False, workers=8, props=["Local"])
    for b, want in (("first", "Truthful"), ("leftover", "any"), ("asked", "any"), ("mie", "any"), ("edge", "Truthful")):
        c.model("LabelMC", dict(D=2, Bug='"%s"' % b), inv, expect=want, deadlock=False, workers=8)
    r = c.model("PlanMC", ONE, [], deadlock=False, workers=1, heap="2g",
                extra=("-simulate", "num=%d" % (4000 if th else 500), "-depth", "40", "-seed", str(rng.randrange(1, 10 ** 6))))
    plans = [parse_plan(x) for x in r["prints"] if x.startswith("PLAN")]
    if len(plans) < 100:
        raise vlib.tlc.TLCError("too few plans generated: %d" % len(plans))
    for x in ("HSRL", "CEIL", "KAZR", "WACR"):
        instrument(x)
    jobs = {}
    for o, conv, p3, steps in plans:
        if not p3 and o["route"] == "micro" and o["sw"] in ("default", "true") and rng.random() < .6:
            continue                            # slow ones
        fam = "P3" if p3 else rng.choice(["ModelE", "CESM"]) if o["route"] != "empirical" else "ModelE"
        if fam == "P3" and o["hyd"] == "pl+cl" or fam == "P3" and o["route"] == "empirical":
            continue
        jobs.setdefault((fam, conv, o["gen"] == "skip"), []).append((o, steps))
    items = []
    per = 8
    for k, v in sorted(jobs.items()):
        rng.shuffle(v)
        items += [k + (v[i:i + per],) for i in range(0, min(len(v), per * (300 if th else 3)), per)]
    traces = vlib.pmap(job, items)
    c.info["plans_executed"] = sum(len(i[3]) for i in items)
    c.info["labels_read"] = sum(len(e["labels"]) for _, t in traces for e in t["ev"])
    corrupt = []

    def spoil(clause, sel, do, n=2):
        ok = [(t, j, k) for _, t in traces for j, e in enumerate(t["ev"]) if not e["err"] for k, l in enumerate(e["labels"]) if sel(l)]
        for t, j, k in rng.sample(ok, min(n, len(ok))):
            t = copy.deepcopy(t)
            do(t["ev"][j]["labels"], k)
            t["ev"] = t["ev"][:j + 1]
            corrupt.append((clause, t))
    S = lambda f, v: (lambda ls, k: ls[k].__setitem__(f, v(ls[k]) if callable(v) else v))
    spoil("results_present", lambda l: l["kind"] in ("od", "ze", "frac"), lambda ls, k: ls.pop(k))
    spoil("unit", lambda l: l["kind"] in ("alpha", "ze", "q"), S("unit", "mm"))
    spoil("unit", lambda l: l["kind"] == "ext", S("codes", lambda l: [[0, "extinct"]] + l["codes"][1:]))
    spoil("legend", lambda l: l["kind"] in ("cmask", "lmask", "rmask"), S("codes", lambda l: [[3 - a if a < 3 else a, b] for a, b in l["codes"]]))
    spoil("name", lambda l: l["kind"] in ("beta", "ze"), S("words", lambda l: l["words"] + ["attenuated"]))
    spoil("name", lambda l: l["kind"] in ("batt", "zatt", "od"), S("words", []))
    spoil("cloud_type", lambda l: l["cloud"] == "strat" and l["kind"] == "od", S("about", "conv"))
    spoil("class", lambda l: l["cls"] == "cl" and l["kind"] in ("od", "ze"), S("named", ["ci"]))
    spoil("instrument", lambda l: l["kind"] in ("lmask", "rmask"), S("says_inst", False))
    spoil("method", lambda l: l["kind"] in ("od", "ze", "q") and l["cloud"] == "strat", S("method", lambda l: "Empirical" if l["method"] != "Empirical" else "Bulk (radiation logic)"))
    spoil("database", lambda l: l["kind"] in ("od", "ze") and l["cloud"] == "strat", S("db", lambda l: "Mie" if l["db"] != "Mie" else "C6"))
    spoil("edge", lambda l: l["kind"] in ("od", "hydext", "ext"), S("edge", lambda l: "top" if l["edge"] == "base" else "base"))
    c.validate("LabelTrace", traces, corrupt, workers=8)
