"""Concretises histories of PdcRegion and runs them on src/utils/pdc_region_utils.c."""
import os
import random

import comp
import pdcbuild


def build():
    t = pdcbuild.Tree(name="asan", san="address,undefined")
    return t.commons("region", [pdcbuild.VERIF + "/drv/region.c"], more=[os.path.join(t.src, "utils/pdc_region_utils.c")])


def runner(job):
    R = random.Random(job["seed"])
    unit = R.choice([1, 1, 2, 3, 4, 8])
    # a translation of all regions changes nothing, nor does a scale of those that only are compared
    shift = [R.choice([0, 0, 1, 1000, 2 ** 31 - 3, 2 ** 32 - 2, 2 ** 40, 2 ** 62]) for _ in range(5)]
    lines, evs, have = [], [], {}

    def ask(o1, s1, o2, s2):
        k = R.choice([1, 1, 2 ** 20, 2 ** 31, 2 ** 33])
        d = len(o1)
        big = [s if k == 1 or s < 2 ** 40 else 5 for s in shift[:d]]
        f = lambda o: [k * x + y for x, y in zip(o, big)]
        lines.append("ask %d %s" % (d, " ".join(str(x) for v in (f(o1), [k * x for x in s1], f(o2), [k * x for x in s2]) for x in v)))

        def ev(r):
            base = {"o1": o1, "s1": s1, "o2": o2, "s2": s2}
            out = [dict(base, op="overlap", yes=bool(r["overlap"]))]
            w = dict(base, op="where", yes=bool(r["where"]), off=[], size=[])
            if r["where"]:
                back = lambda v, b: v // k if v % k == 0 and abs(v // k) < 2 ** 30 else -1
                w["off"] = [back(int(v) - b, b) for v, b in zip(r["off"], big)]
                w["size"] = [back(int(v), 0) for v in r["size"]]
                out += [w, dict(base, op="within", yes=bool(r["within"]))]
            else:
                out.append(w)
            return out
        evs.append(ev)

    def enc(v):
        return b"".join((x % (256 if unit == 1 else 251)).to_bytes(1, "little") + bytes([(x // 251 + i + x) % 256 for i in range(1, unit)]) for x in v)

    def dec(h, guard, cands):
        b = bytes.fromhex(h)
        m = {enc([c]): c for c in cands}
        v = [m.get(b[i:i + unit], -1) for i in range(0, len(b), unit)]
        return v if guard else v + [-2]

    vals = {}
    used = set()
    for c in job["hist"]:
        op = c["op"]
        if op == "new":
            n = 1
            for x in c["size"]:
                n *= x
            # distinct bytes even for elements of one byte, as far as that goes
            val = [(R.randrange(251) if unit == 1 else R.randrange(1, 16000)) for _ in range(n)]
            used.update(val)
            d = len(c["off"])
            lines.append("new %d %d %d %s %s %s" % (c["b"], d, unit, " ".join(str(x + s) for x, s in zip(c["off"], shift)),
                                                    " ".join(map(str, c["size"])), enc(val).hex()))
            evs.append(lambda r, c=c, val=val: [{"op": "new", "b": c["b"], "off": c["off"], "size": c["size"], "val": val}])
            have[c["b"]] = c
        elif op in ("copy", "gather", "scatter"):
            lines.append("%s %d %d" % (op, c["a"], c["b"]))
            evs.append(lambda r, c=c: [{"op": c["op"], "a": c["a"], "b": c["b"], "after": dec(r["to"], r["to_guard"], used),
                                        "kept": dec(r["from"], r["from_guard"], used)}])
        elif op == "ask":
            a, b = have[c["a"]], have[c["b"]]
            ask(a["off"], a["size"], b["off"], b["size"])
        else:
            ask(c["o1"], c["s1"], c["o2"], c["s2"])
    res, crash = comp.run(job["exe"], lines)
    out = [{"op": "reset"}]
    for r, f in zip(res, evs):
        out += f(r)
    return {"events": out, "crash": crash} if crash else {"events": out}
