"""Runs TLC: exhaustive searches, simulations that print behaviours, and validation of recorded traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _cp():
    d = os.path.dirname(JAR)
    cp = [JAR]
    for r, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.startswith("CommunityModules") and f.endswith(".jar"):
                cp.append(os.path.join(r, f))
    return ":".join(cp)


class ModelError(Exception):
    """TLC could not do its work (a mistake in a specification, no memory, ...)"""


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def tlc(module, cfg=None, workers=1, env=None, timeout=600, heap="2g", args=(), extra_cfg=None):
    """one TLC run in a scratch copy of the specifications"""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="tlc", dir=base)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = cfg or module + ".cfg"
        if extra_cfg is not None:
            cfg = "run_.cfg"
            with open(os.path.join(d, cfg), "w") as h:
                h.write(extra_cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)),
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d,
               "-cp", _cp(), "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-noTE", "-lint" if False else "-nowarning",
               "-metadir", os.path.join(d, "states")] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            o = ex.stdout or b""
            return Result(-1, (o if isinstance(o, str) else o.decode(errors="replace")) + "\nTIMEOUT")
        return Result(p.returncode, p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg=None, workers=8, timeout=900, heap="8g", extra_cfg=None, args=()):
    """exhaustive search; anything but a clean end is an error of the model (the models hold on their own)"""
    r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra_cfg=extra_cfg, args=args)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise ModelError("%s %s: rc %d\n%s" % (module, cfg, r.rc, r.out[-3000:]))
    return r


def configured(cfg, consts):
    """the text of a configuration with other values of some constants"""
    with open(os.path.join(SPEC, cfg)) as h:
        text = h.read()
    for k, v in consts.items():
        text, n = re.subn(r"(?m)^(\s*%s\s*)(=|<-).*$" % k, lambda m: m.group(1) + (v if v.startswith("<-") else "= " + v), text)
        if n != 1:
            raise ModelError("%s has no constant %s" % (cfg, k))
    return text


def behaviours(module, cfg, num, depth, seed, timeout=300, extra_cfg=None, consts=None):
    """behaviours of the generator specification, as lists of commands"""
    if consts:
        extra_cfg = configured(cfg, consts)
    r = tlc(module, cfg, workers=1, timeout=timeout, extra_cfg=extra_cfg,
            args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    out = []
    for line in r.out.splitlines():
        if line.startswith('"HIST '):
            out.append(json.loads(json.loads(line)[5:]))
    if not out or "Error:" in r.out:
        raise ModelError("%s %s: no behaviours\n%s" % (module, cfg, r.out[-3000:]))
    return out


def validate(module, events, cfg=None, timeout=600, heap="3g", env=None):
    """Is the list of events a behaviour of the trace specification?  None, or the index of the first event that is not."""
    if not events:
        return None
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson", dir=base)
    with os.fdopen(fd, "w") as h:
        for e in events:
            h.write(json.dumps(e) + "\n")
    try:
        e = dict(env or {})
        e["TRACE"] = path
        r = tlc(module, cfg, workers=1, env=e, timeout=timeout, heap=heap)
    finally:
        os.unlink(path)
    if r.rc == 0 and "No error has been found" in r.out:
        return None
    m = re.search(r"@!@REACHED (\d+)", r.out)
    if m:
        return int(m.group(1))
    if "TraceAccepted" in r.out or "ostcondition" in r.out:
        # every consumed event is one step of the search
        d = r.depth or int((re.search(r"depth of the complete state graph search is (\d+)", r.out) or [0, 0])[1])
        return d - 1
    m = re.search(r"Invariant (\S+) is violated", r.out) or re.search(r"(Action property|Temporal propert)\S* (\S+)", r.out)
    if m and r.rc in (12, 13):
        n = len(re.findall(r"^State \d+:", r.out, re.M))
        return max(0, n - 2)
    raise ModelError("%s: rc %d\n%s" % (module, r.rc, r.out[-4000:]))
