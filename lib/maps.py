"""Histories of mapped buffers and region locks: concretised from behaviours of PdcMap, run on real clients and servers."""
import random
import struct

import cluster
import e2e
from data import BLANK, TYPES, val


class Maps:
    def __init__(self, run, rng):
        self.run, self.rng = run, rng
        self.n = 0
        self.ob = {}        # object -> (dims, type number, format)
        self.whole = {}     # object -> do transfers find what mapped buffers write?
        self.opn = set()
        self.reg = {}       # (client, object, region) -> name of the region
        self.m = {}         # (client, object, region) -> (name of the buffer, elements before and after the mapped ones)
        self.held = {}      # (object, region) -> client
        self.wait = {}      # client -> (object, region, access)
        self.got = {}       # answers to calls that waited

    def C(self, c, *w):
        self.poll()
        return self.run(c, *w)

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def prolog(self):
        for c in range(self.run.ncl):
            self.C(c, "prop", "cp", "cont")
            self.C(c, "ccreate", "c", "cc", "cp")

    def poll(self, timeout=0):
        """clients that waited and have been answered"""
        for c in list(self.wait):
            if not self.run.k[c].ready(timeout):
                continue
            a = self.run.k[c].recv()
            o, r = self.wait.pop(c)
            self.run.log("gets", c=c, ok=a["rc"] >= 0)
            self.held[(o, r)] = c

    def region(self, c, o, r):
        k = (c, o, r)
        if k not in self.reg:
            self.reg[k] = self.new("r")
            self.C(c, "region", self.reg[k], len(r[0]), *r[0], *r[1])
        return self.reg[k]

    def pack(self, o, vals):
        return struct.pack("<%d%s" % (len(vals), self.ob[o][2]), *vals).hex()

    def unpack(self, o, r):
        v = [q[0] for q in struct.iter_unpack("<" + self.ob[o][2], bytes.fromhex(r["data"]))]
        return [int(q) if q == q and abs(q) < 1000 and int(q) == q else -1 for q in v] + ([] if r["guard"] else [-2])

    def look(self, k):
        """the mapped elements; what is around them must be as it was"""
        name, a, b = self.m[k]
        v = self.unpack(k[1], self.run(k[0], "bget", name))
        if v[:a] != [BLANK] * a or v[len(v) - b:] != [BLANK] * b:
            return v
        return v[a:len(v) - b]

    def step(self, m):
        op, L, C, rng = m["op"], self.run.log, self.C, self.rng
        c, o = m.get("c", 0), m.get("o")
        r = (tuple(m["off"]), tuple(m["size"])) if "off" in m else None
        k = (c, o, r)
        n = 1
        for s in m.get("size", []):
            n *= s
        rk = {q: m[q] for q in ("c", "o", "off", "size") if q in m}
        if op == "ocreate":
            ty = rng.choice(TYPES)
            self.ob[o] = (m["dims"],) + ty
            C(c, "prop", "p" + o, "obj")
            # where transfers spread an object over servers, only mapped buffers go to the server that has the locks
            part = rng.choice([0, 0, 0, 1, 2, 3])
            self.whole[o] = part == 0 or (part == 1 and self.run.nserv == 1)
            C(c, "pset", "p" + o, "dims", len(m["dims"]), *m["dims"], "type", ty[0], "cons", 1, "part", part)
            a = C(c, "ocreate", "o" + o, "c", "o" + o, "p" + o)
            self.opn.add((c, o))
            L("ocreate", c=c, o=o, dims=m["dims"], ok=bool(a["ok"]), type=ty[0])
        elif op == "oopen":
            a = C(c, "oopen", "o" + o, "o" + o)
            self.opn.add((c, o))
            L("oopen", c=c, o=o, ok=bool(a["ok"]))
        elif op in ("write", "read"):
            b, l, x = self.new("b"), self.new("l"), self.new("x")
            vals = [val(m["base"] + i) for i in range(n)] if op == "write" else [BLANK] * n
            C(c, "buf", b, self.pack(o, vals))
            C(c, "region", l, 1, 0, n)
            a = [C(c, "xfer", x, op[0].upper(), b, "o" + o, l, self.region(c, o, r))["ok"] - 1]
            a += [C(c, q, x)["rc"] for q in ("xstart", "xwait", "xclose")]
            got = self.unpack(o, C(c, "bget", b))
            if op == "write":
                L("write", ok=min(a) >= 0 and got == vals, base=m["base"], **rk)
            else:
                L("read", ok=min(a) >= 0, buf=got, **rk)
        elif op == "map":
            b, l = self.new("b"), self.new("l")
            pre, post = (rng.choice([0, 0, 1, 3]), rng.choice([0, 2])) if len(m["size"]) == 1 else (0, 0)
            C(c, "buf", b, self.pack(o, [BLANK] * pre + [val(m["base"] + i) for i in range(n)] + [BLANK] * post))
            C(c, "region", l, len(m["size"]), *([pre] if len(m["size"]) == 1 else [0] * len(m["size"])), *m["size"])
            a = C(c, "map", b, self.ob[o][1], l, "o" + o, self.region(c, o, r))
            self.m[k] = (b, pre, post)
            L("map", ok=a["rc"] >= 0, base=m["base"], **rk)
        elif op == "fill":
            b, pre, post = self.m[k]
            C(c, "bset", b, self.pack(o, [BLANK] * pre + [val(m["base"] + i) for i in range(n)] + [BLANK] * post))
            L("fill", base=m["base"], **rk)
        elif op == "look":
            L("look", buf=self.look(k), **rk)
        elif op == "unmap":
            a = C(c, "unmap", "o" + o, self.region(c, o, r))
            L("unmap", ok=a["rc"] >= 0, **rk)
            del self.m[k]
        elif op == "lock":
            w = ["lock", "o" + o, self.region(c, o, r), m["acc"] + ("B" if m["block"] else "N")]
            if m["block"] and (o, r) in self.held:
                self.poll()
                self.run.k[c].send(" ".join(w))
                L("asks", **rk)
                self.wait[c] = (o, r)
                if rng.random() < .3:
                    self.poll(.002)
            else:
                a = C(c, *w)
                if a["rc"] >= 0:
                    self.held[(o, r)] = c
                L("lock", ok=a["rc"] >= 0, block=m["block"], **rk)
        elif op == "gets":
            # somebody gets it, soon
            n = len(self.wait)
            end = 400
            while self.due() and end:
                end -= 1
                self.poll(.02)
            if self.due():
                raise cluster.Crash("a client waits for a lock nobody has", self.run.cl.logs())
        elif op == "release":
            a = C(c, "release", "o" + o, self.region(c, o, r), m["acc"])
            ok = a["rc"] >= 0
            L("release", ok=ok, acc=m["acc"], buf=self.look(k) if ok and k in self.m else [], **rk)
            if self.held.get((o, r)) == c:
                del self.held[(o, r)]
            if self.due():
                self.step({"op": "gets"})
        elif op == "restart":
            self.finish()
            self.run.restart()
            L("restart")
            for q in (self.opn, self.reg, self.m, self.held):
                q.clear()
            self.prolog()
        else:
            raise ValueError(op)

    def due(self):
        return any(x not in self.held for x in self.wait.values())

    def finish(self):
        """those that hold locks release them until nobody waits"""
        while self.wait:
            (o, r), c = next((x, c) for x, c in self.held.items() if c not in self.wait)
            self.step({"op": "release", "c": c, "o": o, "off": list(r[0]), "size": list(r[1]), "acc": self.rng.choice("RW")})

    def usable(self, m):
        """is the command one the specification can have meant, now that locks may have gone to others?"""
        op, c = m["op"], m.get("c", 0)
        if op == "restart":
            return True
        if c in self.wait or op == "gets" or (op == "oopen" and ((c, m["o"]) in self.opn or m["o"] not in self.ob)):
            return False
        if op in ("ocreate", "oopen"):
            return True
        k = (c, m["o"], (tuple(m["off"]), tuple(m["size"])))
        h = self.held.get(k[1:])
        if k[:2] not in self.opn:
            return False
        if op in ("write", "read"):
            return self.whole[k[1]]
        if op in ("fill", "look", "unmap"):
            return k in self.m
        if op == "map":
            return k not in self.m and h != c
        if op == "lock":
            return not (m["block"] and h is not None and (h == c or h in self.wait))
        if op == "release":
            return h in (None, c)
        return True

    def audit(self):
        self.finish()
        for o, (dims, _, _) in self.ob.items():
            c = self.rng.randrange(self.run.ncl)
            if (c, o) not in self.opn:
                self.step({"op": "oopen", "c": c, "o": o})
            rg = {"c": c, "o": o, "off": [0] * len(dims), "size": dims}
            if self.whole[o]:
                self.step(dict(rg, op="read"))
                continue
            k = (c, o, (tuple(rg["off"]), tuple(dims)))
            holder = self.held.get(k[1:])
            if holder is not None:
                self.step(dict(rg, op="release", c=holder, acc=self.rng.choice("RW")))
            if k not in self.m:
                self.step(dict(rg, op="map", base=0))
            self.step(dict(rg, op="lock", acc="R", block=False))
            self.step(dict(rg, op="release", acc="R"))
        for k in list(self.m):
            self.step({"op": "look", "c": k[0], "o": k[1], "off": list(k[2][0]), "size": list(k[2][1])})


def runner(job):
    rng = random.Random(job["seed"])
    env = {}
    if rng.random() < .4:
        env["PDC_SERVER_CACHE_MAX_SIZE"] = str(rng.choice([0, 1, 40, 200]))
    if rng.random() < .3:
        env["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = "0"
    run = e2e.Run(job["nserv"], job["ncl"], env=env, seed=job["seed"], shuffle=job["shuffle"], variant=job.get("variant"))

    def body(r):
        d = Maps(r, rng)
        d.prolog()
        for m in job["hist"]:
            if d.usable(m):
                d.step(m)
        d.audit()
    return e2e.job(run, body)
