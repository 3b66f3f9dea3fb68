"""Histories of transfers: concretised from behaviours of PdcData, run on real clients and servers."""
import copy
import itertools
import random
import struct
import threading

import e2e

TYPES = [(0, "i"), (1, "f"), (2, "d"), (3, "b"), (8, "q"), (10, "h")]
BLANK = 125


def val(n):
    return n % 119 + 1


class Data:
    def __init__(self, run, rng, parts, after, par=False):
        self.run, self.rng, self.parts = run, rng, parts
        self.ty = {}          # object -> (number, format)
        self.x = {}           # transfer -> the command that created it
        self.busy = set()     # transfers under way
        self.posix = {}       # (client, object)
        self.par, self.moves = par, set()
        self.after = after    # what to do to the servers between calls, now and then

    def C(self, c, *w):
        return self.run(c, *w)

    def prolog(self):
        for c in range(self.run.ncl):
            self.C(c, "prop", "cp", "cont")
            self.C(c, "ccreate", "c", "cc", "cp")

    def fill(self, x):
        d = self.x[x]
        f = self.ty[d["o"]][1]
        v = [val(d["base"] + i) for i in range(d["len"])] if d["acc"] == "W" else [BLANK] * d["len"]
        return struct.pack("<%d%s" % (d["len"], f), *v).hex()

    def buf(self, x):
        d = self.x[x]
        r = self.C(d["c"], "bget", "b%d" % x)
        f = self.ty[d["o"]][1]
        v = [q[0] for q in struct.iter_unpack("<" + f, bytes.fromhex(r["data"]))]
        # numbers no element has show as -1
        v = [int(q) if q == q and abs(q) < 1000 and int(q) == q else -1 for q in v]
        return {"x": x, "buf": v + ([] if r["guard"] else [-2])}

    def step(self, m):
        op, L, C, rng = m["op"], self.run.log, self.C, self.rng
        c = m.get("c", 0)
        if op == "ocreate":
            o = m["o"]
            self.ty[o] = rng.choice(TYPES)
            part = rng.choice(self.parts)
            cons = 1 if m["posix"] else rng.choice([0, 0, 2, 3, 4])
            C(c, "prop", "p" + o, "obj")
            C(c, "pset", "p" + o, "dims", len(m["dims"]), *m["dims"], "type", self.ty[o][0], "part", part, "cons", cons)
            r = C(c, "ocreate", "o" + o, "c", "o" + o, "p" + o)
            self.posix[(c, o)] = m["posix"]
            if self.par and part in (2, 3) and self.run.nserv > 1:
                self.moves.add(o)
            L("ocreate", c=c, o=o, dims=m["dims"], posix=m["posix"], ok=bool(r["ok"]), part=part, type=self.ty[o][0])
        elif op == "oopen":
            r = C(c, "oopen", "o" + m["o"], "o" + m["o"])
            self.posix[(c, m["o"])] = False
            L("oopen", c=c, o=m["o"], ok=bool(r["ok"]))
        elif op == "oclose":
            mine = [x for x, d in list(self.x.items()) if d["c"] == c and d["o"] == m["o"]]
            r = C(c, "oclose", "o" + m["o"])
            L("oclose", c=c, o=m["o"], ok=r["rc"] >= 0, bufs=[self.buf(x) for x in mine if x in self.busy])
            for x in mine:
                self.busy.discard(x)
                del self.x[x]
            self.posix.pop((c, m["o"]), None)
        elif op == "xfer":
            x = m["x"]
            self.x[x] = m
            C(c, "buf", "b%d" % x, self.fill(x))
            C(c, "region", "l%d" % x, len(m["loff"]), *m["loff"], *m["lsize"])
            C(c, "region", "r%d" % x, len(m["off"]), *m["off"], *m["size"])
            r = C(c, "xfer", "x%d" % x, m["acc"], "b%d" % x, "o" + m["o"], "l%d" % x, "r%d" % x)
            if rng.random() < .3:
                # the transfer keeps what it needs of the regions
                C(c, "rclose", "l%d" % x)
                C(c, "rclose", "r%d" % x)
            L("xfer", ok=bool(r["ok"]), **({"mv": 1} if m["o"] in self.moves else {}), **{k: m[k] for k in ("x", "c", "o", "acc", "loff", "lsize", "off", "size", "base", "len")})
        elif op in ("start", "startall"):
            xs = list(m["xs"])
            rng.shuffle(xs)
            for x in xs:
                if x not in self.busy and self.x[x]["acc"] == "R":
                    C(c, "bset", "b%d" % x, self.fill(x))
            if op == "start":
                r = C(c, "xstart", "x%d" % xs[0])
            else:
                r = C(c, "xstartall", *["x%d" % x for x in xs])
            ok = r["rc"] >= 0
            block = [x for x in xs if ok and self.posix[(c, self.x[x]["o"])]]
            if ok:
                self.busy |= set(xs) - set(block)
            L("start", ok=ok, xs=xs, bufs=[self.buf(x) for x in block])
        elif op == "wait":
            x = m["x"]
            r = C(c, "xwait", "x%d" % x)
            L("wait", x=x, ok=r["rc"] >= 0, bufs=self.done([x]))
        elif op == "waitall":
            xs = list(m["xs"])
            rng.shuffle(xs)
            r = C(c, "xwaitall", *["x%d" % x for x in xs])
            ok = r["rc"] >= 0
            L("waitall", xs=xs, ok=ok, bufs=self.done(xs) if ok else [])
        elif op == "status":
            x = m["x"]
            for _ in range(rng.choice([1, 1, 3])):
                r = C(c, "xstatus", "x%d" % x)
                L("status", x=x, st=r["st"], bufs=self.done([x]) if r["st"] == 0 else [])
                if r["st"] != 1:
                    break
        elif op == "xclose":
            x = m["x"]
            r = C(c, "xclose", "x%d" % x)
            L("xclose", x=x, ok=r["rc"] >= 0)
            del self.x[x]
        elif op == "flush":
            r = C(c, "flushall")
            L("flush", ok=r["rc"] >= 0)
        elif op == "ckpt":
            r = C(c, "ckpt")
            L("ckpt", ok=r["rc"] >= 0)
        elif op == "restart":
            self.run.restart()
            L("restart")
            self.again()
        elif op == "crash":
            self.run.crash()
            L("crash")
            self.again()
        else:
            raise ValueError(op)

    def again(self):
        self.x.clear()
        self.busy.clear()
        self.posix.clear()
        self.prolog()

    def done(self, xs):
        out = [self.buf(x) for x in xs if x in self.busy]
        self.busy -= set(xs)
        return out

    def audit(self, known):
        """in the end every object is read as a whole by somebody"""
        n = max(list(self.x) + [0]) + 1000
        for o, dims in known.items():
            c = self.rng.randrange(self.run.ncl)
            if (c, o) not in self.posix:
                self.step({"op": "oopen", "c": c, "o": o})
            n += 1
            size = 1
            for d in dims:
                size *= d
            self.step({"op": "xfer", "x": n, "c": c, "o": o, "acc": "R", "loff": [0], "lsize": [size], "off": [0] * len(dims),
                       "size": dims, "base": 0, "len": size})
            self.step({"op": "start", "c": c, "xs": [n]})
            if n in self.busy:
                self.step({"op": "wait", "c": c, "x": n})


def usable(d, m):
    """is the command one the specification can have meant, now that a status check may have ended a transfer earlier?"""
    x = m.get("x")
    if m["op"] == "xfer":
        return (m["c"], m["o"]) in d.posix
    if x is not None and x not in d.x:
        return False
    if m["op"] == "xclose":
        return x not in d.busy
    if m["op"] in ("start", "startall", "waitall"):
        if any(y not in d.x for y in m["xs"]):
            return False
        if m["op"] == "startall":
            return not any(y in d.busy for y in m["xs"])
    return True


class View:
    """the run as one of several clients sees it that make calls at the same time; knows when they were made and returned"""

    def __init__(self, run, clock):
        self.run, self.clock, self.ncl = run, clock, run.ncl
        self.at, self.ev = None, []

    def __call__(self, c, *w):
        if self.at is None:
            self.at = next(self.clock)
        return self.run(c, *w)

    def log(self, op, **kw):
        now = next(self.clock)
        if op == "start" and kw["ok"]:     # what starts may have effect before the call returns
            self.ev.append((self.at, dict(op="begin", xs=kw["xs"])))
            if kw["bufs"]:
                self.ev.append((now, dict(op="complete", bufs=kw["bufs"], xs=[b["x"] for b in kw["bufs"]])))
        else:
            self.ev.append((now, dict(kw, op=op)))
        self.at = None


ALONE = {"ocreate", "oopen", "ckpt", "restart", "crash"}


def together(run, d, rng, part):
    """the clients go through their commands at the same time"""
    clock, fails, views = itertools.count(1), [], []

    def client(v, mine):
        try:
            for m in mine:
                if usable(v, m):
                    v.step(m)
        except Exception as x:
            fails.append(x)
    owner = {x: m["c"] for x, m in d.x.items()}
    mine = [[] for _ in range(run.ncl)]
    for m in part:
        if m["op"] == "xfer":
            owner[m["x"]] = m["c"]
        c = m["c"] if "c" in m else owner.get(m["x"] if "x" in m else m["xs"][0])
        if c is not None:
            mine[c].append(m)
    ts = []
    for c in range(run.ncl):
        v = copy.copy(d)
        v.run, v.rng = View(run, clock), random.Random(rng.random())
        views.append(v)
        ts.append(threading.Thread(target=client, args=(v, mine[c])))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    run.ev += [e for _, e in sorted((x for v in views for x in v.run.ev), key=lambda x: x[0])]
    if fails:
        raise fails[0]


def runner(job):
    rng = random.Random(job["seed"])
    env = {}
    if rng.random() < .4:
        env["PDC_SERVER_CACHE_MAX_SIZE"] = str(rng.choice([0, 1, 40, 200]))
    if rng.random() < .3:
        env["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = "0"
    if rng.random() < .3:
        env["PDC_DATA_SIEVING"] = "1"
    run = e2e.Run(job["nserv"], job["ncl"], env=env, seed=job["seed"], shuffle=job["shuffle"], variant=job.get("variant"))

    def body(r):
        d = Data(r, rng, job["parts"], None, job.get("par", False))
        d.prolog()
        known = {}
        part = []
        for m in job["hist"]:
            if job.get("par") and m["op"] not in ALONE:
                part.append(m)
                continue
            if part:
                together(r, d, rng, part)
                part = []
            if usable(d, m):
                d.step(m)
                if m["op"] == "ocreate":
                    known[m["o"]] = m["dims"]
        if part:
            together(r, d, rng, part)
        if job.get("audit", True):
            d.audit(known)
    return e2e.job(run, body)
