"""Run TLC on a module of /verif/spec and parse what it reports."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC did not give an answer: a machinery failure, never a verdict."""


class EvalError(TLCError):
    """The specification has no value for a record: the record lies outside of what the specification is about."""


def run(module, cfg, env=None, workers=4, timeout=600, extra=(), heap="6g", ok_rc=(0,)):
    """cfg: text of the configuration. Returns dict(rc, out, states, distinct, violated, prints)."""
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        c = os.path.join(d, module + ".cfg")
        with open(c, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-config", c,
               "-metadir", os.path.join(d, "st"), "-workers", str(workers), "-noGenerateSpecTE",
               "-nowarning", *extra, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on %s after %ds" % (module, timeout))
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        states, distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        violated = re.findall(r"Invariant (\w+) is violated|property (\w+) is violated|"
                              r"Temporal properties were violated|Deadlock reached", out)
        v = None
        mm = re.search(r"Invariant (\w+) is violated", out)
        if mm:
            v = mm.group(1)
        elif re.search(r"Temporal propert(y \w+ was|ies were) violated", out):
            v = "temporal"
        elif "Deadlock reached" in out:
            v = "deadlock"
        elif re.search(r"Action property (.*) is violated", out):
            v = "action"
        r = {"rc": p.returncode, "out": out, "states": states, "distinct": distinct, "violated": v,
             "prints": [ln[1:-1].replace('\\"', '"').replace("\\\\", "\\") for ln in out.splitlines()
                        if ln.startswith('"') and ln.endswith('"')]}
        if p.returncode not in ok_rc and v is None:
            bad = p.returncode < 0 or re.search("OutOfMemory|StackOverflow|No space left|Parse Error|Could not parse", out)
            kind = EvalError if "Computing initial states" in out and not bad else TLCError
            raise kind("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-3000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(module, consts, invariants=(), props=(), spec="Spec", deadlock=True, post=None, constraint=None, **kw):
    cfg = "SPECIFICATION %s\n" % spec
    for k, v in consts.items():
        cfg += "CONSTANT %s = %s\n" % (k, v)
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for i in props:
        cfg += "PROPERTY %s\n" % i
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    if post:
        cfg += "POSTCONDITION %s\n" % post
    cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return run(module, cfg, **kw)
