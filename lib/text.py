"""Concretises histories of PdcText and runs them on the text functions of src/commons/utils."""
import random

import comp
import pdcbuild

SPECIAL = b".*[]\\^$"          # means something else in a regular expression


def build():
    t = pdcbuild.Tree(name="asan", san="address,undefined")
    return t.commons("text", [pdcbuild.VERIF + "/drv/text.c"], more=t.commons_sources())


def hx(v):
    return bytes(v).hex() or "-"


def runner(job):
    R = random.Random(job["seed"])
    # other letters for the ones of the specification
    ren = {97: R.choice([97, 65, 0x80, 200, 35, 32]), 98: R.choice([98, 66, 46, 9, 92])} if R.random() < .5 else {}
    if len(set(ren.values())) < len(ren):
        ren = {}
    f = lambda v: [ren.get(x, x) for x in v]
    lines, evs = [], []
    for c in job["hist"]:
        op = c["op"]
        e = dict(c)
        for k in ("s", "t", "p", "d", "kp", "vp", "name", "sval"):
            if isinstance(e.get(k), list):
                e[k] = f(e[k])
        b = ["yes", "starts", "ends", "has", "is", "match", "range"]
        if op == "cut":
            a = "%s %d %d" % (hx(e["s"]), e["from"], e["to"])
        elif op == "find":
            a = "%s %s %d" % (hx(e["s"]), hx(e["t"]), e["c"])
        elif op == "match":
            a = "%s %s" % (hx(e["s"]), hx(e["p"]))
        elif op == "split":
            if any(x in SPECIAL for x in e["d"]):
                continue
            a = "%s %s" % (hx(e["s"]), hx(e["d"]))
        elif op == "pair":
            if isinstance(c["d"], int):
                e["d"] = f([c["d"]])[0]
            a = "%s %d" % (hx(e["s"]), e["d"])
        elif op == "add":
            a = hx(e["p"])
        elif op == "tags":
            a = "%s %s %d %d" % (hx(e["kp"]), hx(e["vp"]), e["lo"], e["hi"])
        elif op == "query":
            e["vk"] = e["vk"] if e["text"] else e["vn"]
            e["text"] = bool(e["text"])
            a = "%s %d %s %d %d %d %d %d %d" % (hx(e["name"]), e["text"], hx(e["sval"]), e["ival"], e["kk"], e["vk"], e["n"], e["lo"], e["hi"])
        elif op == "some":
            a = "%d %d %d %d %d" % (e["id"], e["count"], e["minlen"], e["maxlen"], e["size"])
        else:
            a = ""
        lines.append(op + " " + a)
        evs.append((e, b))
    res, crash = comp.run(job["exe"], lines)
    out = [{"op": "reset"}]
    for r, (e, b) in zip(res, evs):
        e.update({k: (bool(v) if k in b else v) for k, v in r.items()})
        out.append(e)
    return {"events": out, "crash": crash} if crash else {"events": out}
