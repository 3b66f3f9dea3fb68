#!/usr/bin/env python3
"""Planted bugs.  seed.py make FILE: writes seeded/<id>/ from the edits in FILE; seed.py run [ID..]: builds, tests, runs the
demonstration and the check of each bug (in /repo, undone straight afterwards)."""
import glob
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")  # for make only


E2E_SH = r'''#!/bin/bash
# exit 0 when the behaviour is right; runs real servers and clients in a scratch directory
d=$(dirname "$(realpath "$0")")
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export VERIF_BUILD=$t PYTHONDONTWRITEBYTECODE=1
timeout 280 python3 "$d/demo.py"
'''
E2E_PY = r'''import os
import sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, "bundle", "lib"))
import cluster as C
import pdcbuild as B
enc, hexs = C.enc, C.hexs
t = B.Tree()
exes = t.server(), t.client("pdcdrv", [os.path.join(D, "bundle", "drv", "pdcdrv.c")])


def check(c, *what):
    if not c:
        print("wrong", *what)
        sys.exit(1)


def run(body, nserv=1, ncl=1, env=None):
    try:
        with C.Cluster(exes[0], exes[1], nserv, env=env) as cl:
            cl.start_servers()
            body(cl, cl.start_clients(ncl))
    except C.Crash as x:
        print("wrong", x.what)
        sys.exit(1)


def restart(cl, k):
    for c in k:
        c.send("fini")
    for c in k:
        c.recv()
    for c in k:
        c.send("quit")
        c.p.wait(20)
        c.stop()
    cl.clients = []
    cl.shutdown(cl.start_clients(1)[0])
    cl.start_servers(restart=True)
    return cl.start_clients(len(k))


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh("git -C %s checkout -- ." % R)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        clean()
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C %s diff" % R).stdout
        clean()
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if s.get("e2e"):
            bundle(d)
            s["files"] = {"demo.sh": E2E_SH, "demo.py": E2E_PY + s["e2e"]}
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
            if n.endswith(".sh"):
                os.chmod(os.path.join(d, n), 0o755)
        print("made", s["id"])


def bundle(d):
    """the stand-ins and drivers a demonstration needs"""
    sh("rm -rf %s/bundle; mkdir -p %s/bundle/lib %s/bundle/drv && cp -r %s/shim %s/bundle/ && cp %s/lib/pdcbuild.py %s/lib/cluster.py %s/bundle/lib/ "
       "&& cp %s/drv/pdcdrv.c %s/bundle/drv/" % (d, d, d, V, d, V, V, d, V, d))


def refresh():
    for d in glob.glob(V + "/seeded/*/bundle"):
        bundle(os.path.dirname(d))


def run(ids, check=True):
    ids = ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/patch.diff"))
    want = sorted(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    clean()
    sh("bash /opt/vp/build.sh")
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        a = sh("bash %s/demo.sh" % d, cwd=R, timeout=400)
        try:
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr)
                continue
            sh("bash /opt/vp/build.sh")
            b = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            res = json.load(open("/tmp/seed-out.json"))
            c = sh("bash %s/demo.sh" % d, cwd=R, timeout=400)
            line = "%s %s: demo clean %d patched %d, tests passed %d failed %d" % (
                i, prop, a.returncode, c.returncode, len(res["passed"]), len(res["failed"]))
            if a.returncode or not c.returncode or len(res["passed"]) < 5:
                line += "   <<<<<<<< BAD\n" + a.stdout[-500:] + a.stderr[-500:] + "\n--\n" + c.stdout[-500:] + c.stderr[-500:]
            if check:
                e = dict(os.environ, VERIF_BUILD="/tmp/seed-build")
                k = sh("python3 check.py %s quick" % prop, cwd=V, env=e, timeout=1000)
                hit = [x for x in k.stdout.splitlines() if "VIOLATION" in x]
                line += "   check %d %s" % (k.returncode, "CAUGHT" if hit else "missed")
                if k.returncode not in (0, 1):
                    line += "\n" + k.stdout[-1500:] + k.stderr[-1500:]
                elif hit:
                    ls = k.stdout.splitlines()
                    line += "\n      " + ls[max(0, ls.index(hit[0]) - 1)][:200]
            print(line, flush=True)
        finally:
            clean()
            sh("bash /opt/vp/build.sh")
    sh("rm -rf /tmp/seed-build")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    elif sys.argv[1] == "refresh":
        refresh()
    elif sys.argv[1] == "demo":
        run(sys.argv[2:], False)
    else:
        run(sys.argv[2:])
