"""Concretises histories of PdcPool and runs them on src/commons/utils/thpool.c under a controlled scheduler."""
import json
import os
import random
import subprocess

import pdcbuild

V = pdcbuild.VERIF


def build():
    t = pdcbuild.Tree(name="pool")
    w = os.path.join(V, "drv", "sched.h")
    tag = "-DSCHED_TAG=%s" % pdcbuild._sha(open(w, "rb").read())
    pool = os.path.join(t.src, "commons/utils/thpool.c")
    jobs = [(os.path.join(V, "drv/pool.c"), [tag]), (os.path.join(V, "drv/sched.c"), [tag]),
            (pool, ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-DSCHED_WRAP", tag, "-include", w])]
    rest = [(p, []) for p in t.commons_sources() if p != pool]
    objs = t.compile(jobs + rest + t.shim_jobs())
    return t.link("pool", objs[:3] + [t.archive(objs[3:])])


def runner(job):
    R = random.Random(job["seed"])
    lines = ["set %d %d %d" % (R.randrange(1, 2 ** 30), R.choice([0, 1, 1, 2, 2, 3]), R.random() < .4)]
    for c in job["hist"]:
        a = {"init": ["p", "n"], "add": ["p", "j", "points", "gate", "child"], "open": ["j"], "meet": ["j"], "rest": ["n"]}.get(c["op"], ["p"])
        lines.append("%d %d %s %s" % (c["c"], c["after"], c["op"], " ".join(str(int(c[k])) for k in a)))
    err, rc = "", None
    try:
        p = subprocess.run([job["exe"]], input=("\n".join(lines) + "\n").encode(), capture_output=True, timeout=10)
        rc, out, err = p.returncode, p.stdout, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
    evs = [{"op": "reset"}]
    for ln in out.split(b"\n"):
        if ln.startswith(b"{") and ln.endswith(b"}"):
            evs.append(json.loads(ln))
    if rc == 0:
        return {"events": evs}
    return {"events": evs, "crash": ("no end at all" if rc is None else "died (%s)" % rc) + "\n" + err[-600:] + "\n" + "\n".join(lines)}
