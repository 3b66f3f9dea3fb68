"""Concretises histories of PdcDart and runs them on the routing functions of the distributed index."""
import random

import comp
import pdcbuild
from coll import hexs

SPACES = [(1, 27), (2, 27), (3, 27), (4, 27), (5, 27), (7, 27), (10, 27), (16, 27), (20, 27), (26, 27), (27, 27), (28, 27), (40, 27),
          (64, 27), (100, 27), (5, 128), (16, 128), (3, 2), (9, 3), (12, 64), (33, 29)]


def build():
    t = pdcbuild.Tree(name="asan", san="address,undefined")
    return t.commons("dart", [pdcbuild.VERIF + "/drv/dart.c"], more=t.commons_sources())


class Words:
    def __init__(self, R, near):
        self.R, self.mode, self.map, self.seen = R, R.randrange(8), {}, set()
        self.near = near
        self.pre = self.rnd(3, 8)

    def rnd(self, a, b, alpha=b"abcdefghijklmnopqrstuvwxyz"):
        return bytes(self.R.choice(alpha) for _ in range(self.R.randint(a, b)))

    def base(self, k):
        m, R = self.mode, self.R
        if m == 0:
            return self.rnd(1, 9)
        if m == 1:
            return self.rnd(1, 3, b"abkP5z")
        if m == 2:
            return self.pre + self.rnd(0, 3)
        if m == 3:
            return self.rnd(1, 6, bytes(range(1, 256)))
        if m == 4:
            return self.rnd(1, 4, b"ab") + R.choice([b"", b"_id", b"name", b"k"])
        if m >= 6:                             # the alternative node is close to the first one
            return bytes([R.choice(self.near)]) + self.rnd(0, 5 - m // 7 * 2)
        return self.rnd(1, 5, b"kPe5zab09_-K")

    def __call__(self, k):
        if k not in self.map:
            while True:
                w = self.base(k)
                if w not in self.seen or len(self.seen) > 20:
                    break
            self.seen.add(w)
            self.map[k] = w
        return self.map[k]

    def token(self, c):
        w, q = self(c["k"]), c["q"]
        n = len(w)
        i = 1 + c["x"] * n // 10 if q in (3, 4) else 0
        if q == 2:
            t = w if c["x"] < 8 else w + b"x"
        elif q == 3:
            t = w[:i]
        elif q == 4:
            t = w[n - i:]
        else:
            a = c["x"] * n // 10
            b = a + 1 + c["y"] * (n - a) // 10
            t = w[a:b]
        return t or w


def runner(job):
    R = random.Random(job["seed"])
    ns, al = job.get("space") or R.choice(SPACES)
    W = Words(R, [c for c in range(33, 256) if (c + al // 2) % al < 4] or [97])
    extra, rep = R.choice([0, 0, 0, 1]), R.choice([1, 2, 2, 3, 3, 4])
    dht = R.random() < .15
    lines, f = ["space 1 %d %d %d %d" % (ns, al, extra, rep)], [dict(ns=ns, rep=rep)]
    first = R.randrange(2)
    for c in job["hist"]:
        if c["op"] == "load":
            for _ in range(3):
                lines.append("load 1 %d %d" % (R.randrange(ns), R.randint(0, 5)))
                f.append({})
            continue
        q = {"ins": 1, "del": 6}.get(c["op"]) or c["q"]
        t = W.token(c) if c["op"] == "ask" else W(c["k"])
        if dht:
            if q in (3, 4, 5) and (first or len(t) < 2) and not (first and q in (3, 5)):
                q, t = 2, W(c["k"])           # what it does not offer
            lines.append("dht 1 %d %d %s" % (q, first, hexs(t)))
        else:
            lines.append("route 1 %d %s" % (q, hexs(t)))
        f.append(dict(q=q, t=list(t)))
    res, crash = comp.run(job["exe"], lines)
    evs = [{"op": "reset"}] + [dict(r, **x) for r, x in zip(res, f)]
    return {"events": evs, "crash": crash} if crash else {"events": evs}
