"""Concretises histories of PdcFile and runs them on src/commons/file."""
import os
import random
import shutil
import tempfile

import comp
import pdcbuild


def build():
    t = pdcbuild.Tree(name="asan", san="address,undefined")
    return t.commons("file", [pdcbuild.VERIF + "/drv/file.c"], more=t.commons_sources())


def hx(v):
    return bytes(v).hex() or "-"


def unhex(s):
    return list(bytes.fromhex(s))


def runner(job):
    R = random.Random(job["seed"])
    big = R.random() < .1        # every byte many times over, so that buffers fill up
    rep = (lambda b: [x or 1 for x in b for _ in range(20)]) if big else (lambda b: b)
    lines, evs = [], []
    at = {}
    length = {}                  # what is asked for relative to the length, which is the specification's to know
    for c in job["hist"]:
        op = c["op"]
        e = c = dict(c)
        if big and op in ("update", "write"):
            e["b"] = [x or 1 for x in c["b"]]
        a = [str(c[k]) for k in ("h", "f") if k in c]
        if op == "wtext":
            e["lines"] = [rep(x) for x in c["lines"]]
            a += [str(len(e["lines"]))] + [hx(x) for x in e["lines"]]
            length[c["f"]] = sum(len(x) + 1 for x in e["lines"])
        elif op == "wbin":
            e["b"] = rep(c["b"])
            a.append(hx(e["b"]))
            length[c["f"]] = len(e["b"])
        elif op == "rbin":
            if big:
                e["n"] = R.choice([length[c["f"]], R.randrange(length[c["f"]] + 9)])
            a += [str(e["n"]), str(length[c["f"]])]
        elif op == "update":
            if big:
                e["at"] = R.randrange(length[c["f"]] + 1)
            a += [hx(c["b"]), str(e["at"])]
            if c["b"]:
                length[c["f"]] = max(length[c["f"]], e["at"] + len(c["b"]))
        elif op == "full":
            e["b"] = rep([x or 1 for x in c["b"]])
            a += [str(int(c["how"] == "text")), hx(e["b"])]
        elif op == "open":
            a.append(c["mode"])
            if c["mode"] == "w" or c["f"] not in length:
                length[c["f"]] = 0
            at[c["h"]] = c["f"]
        elif op == "write":
            a.append(hx(c["b"]))
            length[at[c["h"]]] += len(c["b"])
        elif op == "line":
            a.append(str(c["size"]))
        lines.append(op + " " + " ".join(a))
        evs.append(e)
    d = tempfile.mkdtemp(prefix="pdcf", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        res, crash = comp.run(job["exe"], lines, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = [{"op": "reset"}]
    for r, e in zip(res, evs):
        for k in ("b", "line"):
            if k in r:
                r[k] = unhex(r[k])
        if "lines" in r:
            r["lines"] = [unhex(x) for x in r["lines"]]
        e.update(r)
        e.setdefault("line", [])
        out.append(e)
    return {"events": out, "crash": crash} if crash else {"events": out}
