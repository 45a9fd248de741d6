"""Running TLC: exhaustive model checking and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def _java(args, env, timeout, heap, gc="-XX:+UseSerialGC"):
    cmd = ["java", gc, "-Xss64m", "-Xmx%s" % heap,
           "-XX:TieredStopAtLevel=4", "-Dtlc2.TLC.stopAfter=0" if False else "-Dvp=1",
           "-cp", CP, "tlc2.TLC"] + args
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out after %ss: %s" % (timeout, " ".join(args)))
    return p.returncode, p.stdout.decode(errors="replace")


def _stats(out):
    st = {"states": 0, "generated": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["generated"], st["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m.group(1))
    return st


def coverage(out):
    """per-action counts printed by -coverage 1: name -> generated states"""
    res = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        res[m.group(1)] = max(res.get(m.group(1), 0), int(m.group(3)))
    return res


def model_check(module, cfg, workers=8, timeout=300, heap="8g", env=None, cover=True,
                expect_complete=True):
    """Exhaustive check.  Returns (stats, emitted cases).  Raises TLCError when the
    model itself is wrong (invariant violated, evaluation error, ...)."""
    meta = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        args = ["-config", cfg, "-metadir", meta, "-workers", str(workers),
                "-noGenerateSpecTE", "-deadlock"]
        if cover:
            args += ["-coverage", "1"]
        rc, out = _java(args + [module + ".tla"], env or {}, timeout, heap,
                        "-XX:+UseParallelGC")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if rc != 0 or "No error has been found" not in out:
        k = out.find("Error:")
        raise TLCError("model checking %s/%s failed (rc=%d):\n%s" % (module, cfg, rc, out[max(k, 0):][:6000]))
    cases = []
    for line in out.splitlines():
        if line.startswith('"CASE'):
            s = json.loads(line)
            cases.append(json.loads(s[4:]))
    st = _stats(out)
    st["coverage"] = coverage(out)
    never = [a for a, n in st["coverage"].items() if n == 0 and not a.endswith("Init")]
    st["never_taken"] = never
    return st, cases


def validate(module, cfg, trace, timeout=300, heap="3g", env=None):
    """Trace validation.  Returns (reached, total, stats, note): reached = number of
    leading events of the trace the specification can explain."""
    meta = tempfile.mkdtemp(prefix="vp-tlc-")
    e = {"TRACE": trace}
    e.update(env or {})
    try:
        rc, out = _java(["-config", cfg, "-metadir", meta, "-workers", "1",
                         "-noGenerateSpecTE", "-deadlock", module + ".tla"], e, timeout, heap)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    total = sum(1 for _ in open(trace))
    st = _stats(out)
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
    if m:
        if int(m.group(2)) != total:
            raise TLCError("trace length mismatch %s vs %d" % (m.group(2), total))
        if "No error has been found" not in out and "Error:" in out and "Invariant" not in out:
            raise TLCError("unexpected TLC output:\n" + out[-4000:])
        return int(m.group(1)), total, st, ""
    # An invariant of the specification broken by the observed execution, or an
    # observed value the specification's operators are not even defined on.
    m = re.search(r"Error: Invariant (\w+) is violated", out)
    k = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
    if m and k:
        return max(max(k) - 2, 0), total, st, "invariant " + m.group(1)
    if k and ("TLC threw an unexpected exception" in out or "evaluat" in out
              or "Attempted" in out or "was thrown" in out):
        mm = re.search(r"(Attempted[^\n]*|java\.[^\n]*)", out)
        if "OutOfMemory" in out or "StackOverflow" in out:
            raise TLCError("TLC resource failure:\n" + out[-4000:])
        return max(k) - 1, total, st, "undefined in the specification: " + (mm.group(1) if mm else "")
    raise TLCError("TLC failed on trace (rc=%d):\n%s" % (rc, out[-4000:]))
