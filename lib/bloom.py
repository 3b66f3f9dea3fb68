"""Concretises histories of PdcBloom and runs them on src/server/dablooms."""
import os
import random

import comp
import pdcbuild

N = 160


def build():
    t = pdcbuild.Tree(name="asan", san="address,undefined")
    return t.commons("bloom", [pdcbuild.VERIF + "/drv/bloom.c"], more=t.commons_sources() + [os.path.join(t.src, "server/dablooms", x) for x in ("pdc_dablooms.c", "pdc_murmur.c")])


def runner(job):
    R = random.Random(job["seed"])
    style = R.randrange(3)
    keys = set()
    while len(keys) < N:
        n = R.randrange(1, 40) if style == 0 else R.randrange(3, 20)
        keys.add(bytes(R.randrange(256) for _ in range(n)) if style == 0 else
                 b"/object/%d" % len(keys) if style == 1 else bytes(R.choice(b"ab") for _ in range(n)))
    keys = sorted(keys)
    R.shuffle(keys)
    lines = ["key %d %s" % (i + 1, k.hex()) for i, k in enumerate(keys)]
    evs = [None] * N
    for c in job["hist"]:
        op = c["op"]
        e = dict(c)
        if op == "new":
            a = "%d %d %d" % (c["kind"] == "scaling", c["cap"], c["inv"])
        elif op in ("add", "remove"):
            a = "%d %d" % (c["lo"], c["hi"])
        elif op == "check":
            a = "%d" % c["k"]
        elif op == "probe":
            e["n"] = 2000
            a = "%d %d" % (e["n"], R.randrange(10 ** 6))
        else:
            a = ""
        lines.append("%s %d %s" % (op, c["f"], a))
        evs.append(e)
    res, crash = comp.run(job["exe"], lines)
    out = [{"op": "reset"}]
    for r, e in zip(res, evs):
        if e:
            e.update(r)
            if e["op"] == "check":
                e["yes"] = bool(e["yes"])
            out.append(e)
    return {"events": out, "crash": crash} if crash else {"events": out}
