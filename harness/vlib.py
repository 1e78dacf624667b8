"""Shared machinery of the checks: calling the code under test, trace validation, verdicts, evidence."""
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CallTimeout(BaseException):
    pass


class RecordError(Exception):
    """What the code under test left behind could not be recorded: fields or shapes are not as documented."""


def _alarm(signum, frame):
    raise CallTimeout("call did not return in time")


_hung = []


def call(fn, *a, timeout=60, **kw):
    """Call the code under test. Returns (result, err) -- err is '' or a description of the exception / hang."""
    from emcfix import quiet
    old = signal.signal(signal.SIGALRM, _alarm)
    # once one call hung others may hang too; the alarm repeats in case the code swallows the first one
    signal.setitimer(signal.ITIMER_REAL, min(timeout, [60, 20, 5, 5, 1][min(len(_hung), 4)] if _hung else timeout), 2)
    try:
        with quiet():
            return fn(*a, **kw), ""
    except CallTimeout:
        _hung.append(1)
        return None, "Timeout"
    except MemoryError:
        raise
    except Exception as e:  # the code under test failed: a verdict for the specification, not for us
        return None, "%s: %s" % (type(e).__name__, str(e)[:160])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


NZERO, NINF, NNAN = -1900000000, 1900000000, 1999999999


def lg(x):
    """Logarithmic fixed point of spec/Num.tla."""
    import math
    x = float(x)
    if x == 0:
        return NZERO
    if math.isnan(x) or x < 0:
        return NNAN
    if math.isinf(x):
        return NINF
    return int(round(math.log(x) * 1e6))


def lgs(a):
    return [lg(x) for x in a]


def fx(x, unit=1., lim=1500000000):
    """Linear fixed point; not-a-number maps to Nan, infinities to +-Inf of spec/Num.tla."""
    import math
    x = float(x)
    if math.isnan(x):
        return NNAN
    x = x / unit
    if abs(x) > lim:
        return NINF if x > 0 else -NINF
    return int(round(x))


def fxs(a, unit=1.):
    return [fx(x, unit) for x in a]


def _job(a):
    import random
    fn, item, seed = a
    try:
        return fn(item, random.Random(seed)), ""
    except (tlc.TLCError, MemoryError, OSError):
        raise
    except Exception:
        return None, traceback.format_exc()


def pmap(fn, items, procs=7):
    """Run fn(item, rng) for every item in forked worker processes (deterministic seeds, results in order)."""
    import multiprocessing as mp
    items = list(items)
    jobs = [(fn, it, SEED * 1000003 + i) for i, it in enumerate(items)]
    if len(items) <= 1 or os.environ.get("VERIF_SERIAL"):
        res = [_job(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(procs, len(items))) as p:
            res = p.map(_job, jobs, chunksize=1)
    for r, e in res:
        if e:
            raise RecordError(e)
    return [r for r, _ in res]


class Check:
    """Collects what one property check explored and turns it into an exit code + evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.validated = self.rejected_corrupt = 0
        self.samples, self.viol, self.info = [], [], {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.models = []

    # ---- specification level -------------------------------------------------
    def model(self, module, consts, invariants=(), expect=None, **kw):
        """Model-check a design-level module. expect=None: must hold; expect='Inv': must be violated."""
        if expect in invariants:              # several may be violated, and which one is seen first is a matter of chance
            invariants = [expect]
        r = tlc.check(module, consts, invariants, **kw)
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.models.append({"module": module, "constants": {k: str(v) for k, v in consts.items()},
                            "invariants": list(invariants), "properties": list(kw.get("props", ())),
                            "states": r["distinct"], "transitions": r["states"],
                            "violated": r["violated"], "expected_violation": expect})
        if r["violated"] != expect and not (expect is not None and r["violated"] is not None and expect == "any"):
            raise tlc.TLCError("specification %s: expected violation %r, got %r\n%s" %
                               (module, expect, r["violated"], r["out"][-2500:]))
        return r

    # ---- conformance -----------------------------------------------------------
    def validate(self, module, traces, corrupt=(), consts=None, workers=4, timeout=800, label=None, heap="8g"):
        """traces: list of (descr, dict) recorded from the real code. corrupt: list of (clause_or_None, dict)
        traces damaged on purpose, which the specification must reject (naming the clause, if given)."""
        allt = [t for _, t in traces] + [t for _, t in corrupt]
        if not traces:
            raise tlc.TLCError("no traces recorded for %s" % module)
        d = tempfile.mkdtemp(prefix="tr_")
        try:
            p = os.path.join(d, "traces.json")
            with open(p, "w") as f:
                json.dump(allt, f)
            r = tlc.check(module, consts or {}, (), deadlock=False, env={"TRACE": p}, workers=workers,
                          timeout=timeout, heap=heap)
        except tlc.EvalError as e:
            if corrupt:                       # blame the recorded values only if they alone cannot be evaluated
                done = len(self.viol)
                self.validate(module, traces, (), consts, workers, timeout, label, heap)
                if len(self.viol) == done:
                    raise tlc.TLCError("a damaged trace cannot be evaluated: %s" % e)
                return {}
            # the specification cannot even be evaluated on the recorded values (overflow, missing component)
            self.violation("recorded values of " + module, ["values_in_specified_domain"], str(e)[-1500:])
            return {}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        verdicts = {}
        for ln in r["prints"]:
            m = re.match(r"VERDICT (\d+) \{(.*)\}$", ln)
            if m:
                verdicts[int(m.group(1))] = set(x.strip().strip('"') for x in m.group(2).split(",") if x.strip())
        if len(verdicts) != len(allt):
            raise tlc.TLCError("%s gave %d verdicts for %d traces\n%s" % (module, len(verdicts), len(allt),
                                                                        r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.validated += len(traces)
        n = len(traces)
        for i, (descr, t) in enumerate(traces):
            b = verdicts[i + 1]
            if b:
                self.violation(descr, sorted(b), t)
        for i, (cl, t) in enumerate(corrupt):
            b = verdicts[n + i + 1]
            if not b or (cl and cl not in b):
                # if the run itself already violates the property the damaged copy may break other clauses first
                if not self.viol:
                    raise tlc.TLCError("%s accepts a damaged trace (wanted %s, got %s): %s" %
                                       (module, cl, sorted(b), json.dumps(t)[:1500]))
            else:
                self.rejected_corrupt += 1
        if len(self.samples) < 4:
            self.samples.append({"what": label or module, "descr": traces[0][0], "trace": _short(traces[0][1])})
        k = "traces_" + (label or module)
        self.info[k] = self.info.get(k, 0) + len(traces)
        return verdicts

    def violation(self, descr, clauses, trace=None):
        for e in self.known:
            if e["match"] in str(descr) and set(clauses) <= set(e["clauses"]):
                self.known_hit.setdefault(e["id"], (e, descr))
                return
        self.viol.append({"case": descr, "clauses": clauses, "trace": trace})

    # ---- end -------------------------------------------------------------------
    def finish(self):
        for _, (e, descr) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "damaged_traces_rejected": self.rejected_corrupt,
               "samples": self.samples or [{"note": "no trace recorded"}],
               "design_models": self.models}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol),
              "assumptions": ["recorded values are the ones the public API exposes after each call returns",
                              "fixed-point abstraction tolerances stated in DESIGN.md"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            with open(rp, "w") as f:
                json.dump(self.viol[:20], f, indent=1, default=str)
            for v in self.viol[:3]:
                print("  broken %s in %s" % (v["clauses"], str(v["case"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s states=%d traces=%d damaged=%d wall=%.1fs" % (
            self.prop, self.states, self.validated, self.rejected_corrupt, time.time() - self.t0))
        return 0


def _short(t):
    s = json.dumps(t)
    return t if len(s) < 1500 else s[:1500] + "..."


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                e = json.loads(ln)
                if e.get("status") == "known" and e["property"] == prop:
                    out.append(e)
    return out


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
        rc = c.finish()
    except tlc.TLCError as e:
        print("MACHINERY ERROR: %s" % e)
        rc = 2
    except (MemoryError, OSError):
        traceback.print_exc()
        rc = 2
    except Exception as e:
        # nothing of this is raised on code with the documented results: a driver trips over what is missing or
        # misshapen in them (RecordError carries the trace of the worker process)
        traceback.print_exc()
        c.violation("recording the results", ["results_have_documented_form"],
                    str(e)[-2000:] if isinstance(e, RecordError) else traceback.format_exc()[-2000:])
        rc = c.finish()
    sys.stdout.flush()
    os._exit(rc)
