"""Histories of name space operations: concretised from behaviours of the specification, run on real clients and
servers, recorded as events of PdcMeta."""
import itertools
import random
import threading

import e2e
from cluster import enc, hexs

# sizes: names of containers and objects fit their fields, tag names and values are short
PLAIN = ["a", "obj", "x_1", "run-7", "data/temp", "k.v", "Z9", "n" * 40]
ODD = ["Ab", "BA", "a b", "a,b", "*", "**x", "x*", "%41", "\"q\"", "\\", "\x01", "\xe9t\xe9", "0", "-1", "a" * 120, ".", "..",
       "a:b", "a=b", "\t", "NULL", "o" * 63, "o" * 64, "o" * 65]
CODD = ["a b", "x*", "%41", "\"q\"", "\xe9", "0", "-1", "c" * 120, ".", "a,b", "\t"]
NUM = [0, 1, 2, 3, 8, 10]


class Conc:
    """one concrete value per abstract one, chosen by the seed"""

    def __init__(self, rng, odd):
        self.rng, self.odd = rng, odd
        self.ids = e2e.Ids()
        self.m = {}
        self.lock = threading.Lock()

    def pick(self, kind, a, pool):
        with self.lock:
            return self.choose(kind, a, pool)

    def choose(self, kind, a, pool):
        key = (kind, str(a))
        if key not in self.m:
            taken = {v for (k, _), v in self.m.items() if k == kind}
            free = [x for x in pool if x not in taken]
            self.m[key] = self.rng.choice(free) if free else "%s%d" % (kind, len(self.m))
        return self.m[key]

    def cname(self, a):
        return self.pick("c", a, PLAIN + (CODD if self.odd else []))

    def oname(self, a):
        if ("o", str(a)) not in self.m and self.odd and self.rng.random() < .5:
            return self.pick("o", a, ODD)
        return self.pick("o", a, PLAIN)

    def key(self, a):
        return self.pick("k", a, ["k", "key", "keyed", "ke", "temp", "t" * 30] + (["a b", "k=", "_", "\xe9"] if self.odd else []))

    def app(self, a):
        return self.pick("a", a, ["app", "vpic", "x y", "Noname"])

    def val(self, a):
        key = ("v", str(a))
        if key not in self.m:
            t = self.rng.choice(NUM + [4, 4, 4])
            if t == 4:
                v = self.rng.choice([b"blue", b"blues", b"red", b"b", b"", b"a b", b"x" * 60, b"\xff\x80"]) + b"\0"
            else:
                w = {0: 4, 1: 4, 2: 8, 3: 1, 8: 8, 10: 2}[t]
                v = bytes(self.rng.randrange(256) for _ in range(w * self.rng.choice([1, 1, 2, 5])))
                old = [x for (k, _), x in self.m.items() if k == "v" and x[0] != 4 and x[0] != t and len(x[1]) % w == 0]
                if old and self.rng.random() < .6:      # the bytes of a value of another type
                    v = self.rng.choice(old)[1]
            self.m[key] = (t, v)
        return self.m[key]

    def text(self, a):
        return self.pick("t", a, ["red", "blue", "redblue", "a-b", "x" * 20])


def pattern(rng, s):
    """a pattern that is the string, or starts or ends with a star"""
    r = rng.random()
    if r < .5 or b"*" in s or not s:
        return s
    i, j = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
    if r < .65:
        return s[:j] + b"*"
    if r < .8:
        return b"*" + s[i:]
    return b"*" + s[i:j] + b"*" if j > i else b"*" + s + b"*"


def slot(h):
    return "%s" % h[1]


def props_more(rng):
    nd = rng.choice([0, 1, 1, 2, 3, 4])
    return {"dims": [rng.choice([1, 2, 3, 7, 100, 1000000]) for _ in range(nd)], "type": rng.choice([-1, 0, 1, 2, 3, 8]),
            "part": rng.choice([0, 1, 2, 3]), "cons": rng.choice([0, 1, 2, 3, 4])}


def crowd(run, rng, conc, n, tagged, puts):
    """many objects of one name, told apart by user, application and time step"""
    C, L = run, run.log
    ids = conc.ids
    h, p = [0, "c77"], [0, "p77"]
    name = conc.cname("A")
    r = C(0, "ccreate", "c77", enc(name), "cp")
    L("ccreate", h=h, name=name, id=ids(r["meta"]))
    L("prop", h=p, ok=bool(C(0, "prop", "p77", "obj")["ok"]))
    name = conc.oname("X")
    seen = []
    for i in range(n):
        m = {"user": rng.randint(1, 5), "app": conc.app(rng.choice(["a", "b"])), "ts": rng.randint(0, 12)}
        L("pset", h=p, upd=m, ok=C(0, "pset", "p77", "user", m["user"], "app", enc(m["app"]), "ts", m["ts"])["rc"] == 0)
        s = "o%d" % (100 + i)
        r = C(0, "ocreate", s, "c77", enc(name), "p77")
        L("ocreate", h=[0, s], hc=h, name=name, p=p, id=ids(r["meta"]) if r["ok"] else "0")
        if not r["ok"]:
            continue
        seen.append(m["ts"])
        if tagged:
            for j in range(rng.randint(0, 4)):
                k, (t, v) = conc.key(rng.randint(1, 4)), conc.val(rng.randint(1, 9))
                puts.append(((0, s), k, t, v))
                L("tput", h=[0, s], key=e2e.codes(k), type=t, val=list(v), ok=C(0, "tput", "o", s, enc(k), t, hexs(v))["rc"] >= 0)
        if rng.random() < .15:
            L("odel", h=[0, s], ok=C(0, rng.choice(["odel", "delid"]), s)["rc"] >= 0)
    return [(name, t) for t in seen]


def ask_kv(C, L, ids, k, t, v):
    r = C("kvq", enc(k), t, hexs(v))
    L("kvq", key=list(k), type=t, val=list(v), ids=[ids(x) for x in r.get("ids", [])])


def exists(C, L, ids, n, ts):
    r = C("oexists", enc(n), ts)
    if r["found"]:
        L("oexists", name=n, ts=ts, id=ids(r["meta"]),
          rec={"name": r["name"], "cont": ids(r["cont"]), "ts": r["ts"], "user": r["user"], "app": r["app"],
               "dims": r["dims"], "type": r["type"], "part": r["part"], "tags": e2e.codes(r["tags"])})
    else:
        L("oexists", name=n, ts=ts, id="0", rec={})


def audit(run, rng, ids, puts, seen):
    """what is there in the end"""
    L = run.log
    seq = []
    for c in range(run.ncl):
        seq += [[ids(o["meta"]), o["name"], o["ts"]] for o in run(c, "listall")["objs"]]
    L("listall", seq=seq)
    C = lambda *w: run(rng.randrange(run.ncl), *w)     # noqa: E731
    some = sorted({(k, t, v) for _, k, t, v in puts})
    for k, t, v in rng.sample(some, min(5, len(some))):
        ask_kv(C, L, ids, k.encode("latin-1"), t, v)
    for n, ts in rng.sample(sorted(set(seen)), min(4, len(set(seen)))):
        exists(C, L, ids, n, ts)


def execute(run, hist, rng, conc, ncrowd=0, par=False):
    ids = conc.ids
    C = run
    handles = {}     # (client, slot) -> kind while open
    names = {}       # handle -> ndim
    pset = {}        # property handle -> known
    puts = []        # tags put so far
    L = run.log

    def prolog(c):
        C(c, "prop", "cp", "cont")
    for c in range(run.ncl):
        prolog(c)
    seen = []        # names and time steps of objects
    if ncrowd:
        seen += crowd(run, rng, conc, abs(ncrowd), ncrowd < 0, puts)

    def orec(r):
        d = [int(x) for x in r.get("dims", [])]
        return d

    def do(cmd, C, L, rng):
        op = cmd["op"]
        if op == "ckpt":
            run.checkpoint()
            L("ckpt")
            return
        if op == "ckptfail":
            if run.cl.full:
                # one server may get the whole of it written; of several, none does
                run.checkpoint(room=rng.choice([0, 10, 100, 1000, 3000, 10000]) if run.nserv == 1 else rng.randint(0, 20))
                L("ckptmaybe" if run.nserv == 1 else "ckptfail")
            return
        if op in ("restart", "crash", "crashin"):
            if op == "restart":
                run.restart()
            elif op == "crash":
                run.crash()
            else:
                run.crash(room=rng.choice([0, 10, 100, 1000, 3000, 10000, 10**9]) if run.nserv == 1 else rng.randint(0, 20))
            handles.clear()
            pset.clear()
            L("crash" if op == "crashin" and run.nserv > 1 else op)
            for c in range(run.ncl):
                prolog(c)
            return
        h = cmd.get("h")
        c = h[0] if h else cmd.get("c", 0)
        hk = tuple(h) if h else None
        if hk in handles and op in ("ccreate", "copen", "ocreate", "oopen"):
            # the specification took this slot to be free (an open it expected to fail)
            L("close", h=h, ok=C(c, "cclose" if handles.pop(hk) == "c" else "oclose", slot(h))["rc"] >= 0)
        if op == "prop":
            L("prop", h=h, ok=bool(C(c, "prop", slot(h), "obj")["ok"]))
            pset[hk] = 1
            if rng.random() < .8:
                m = props_more(rng)
                w = []
                for k, v in m.items():
                    w += [k] + ([len(v)] + v if k == "dims" else [v])
                if rng.random() < .4:
                    t = conc.text(rng.randint(1, 3))
                    w += ["tags", enc(t)]
                    m["tags"] = e2e.codes(t)
                L("pset", h=h, upd=m, ok=C(c, "pset", slot(h), *w)["rc"] == 0)
            if rng.random() < .3:
                L("pdup", h=[c, "p9"], **{"from": h}, ok=bool(C(c, "pdup", "p9", slot(h))["ok"]))
                r = C(c, "pget", "p9")
                L("pget", h=[c, "p9"], dims=r["dims"] if r["ndim"] else [], type=r["type"], part=r["part"], cons=r["cons"])
                if rng.random() < .5:     # a copy is independent of its original
                    L("pset", h=[c, "p9"], upd={"dims": [5, 6], "type": 3},
                      ok=C(c, "pset", "p9", "dims", 2, 5, 6, "type", 3)["rc"] == 0)
                    r = C(c, "pget", slot(h))
                    L("pget", h=h, dims=r.get("dims", []), type=r["type"], part=r["part"], cons=r["cons"])
                L("pclose", h=[c, "p9"], ok=C(c, "pclose", "p9")["rc"] >= 0)
        elif op == "pset":
            if hk not in pset:
                return
            m = {"user": cmd["user"], "app": conc.app(cmd["app"]), "ts": cmd["ts"]}
            L("pset", h=h, upd=m, ok=C(c, "pset", slot(h), "user", m["user"], "app", enc(m["app"]), "ts", m["ts"])["rc"] == 0)
            if rng.random() < .3:
                r = C(c, "pget", slot(h))
                L("pget", h=h, dims=r.get("dims", []), type=r["type"], part=r["part"], cons=r["cons"])
        elif op == "pclose":
            if hk in pset:
                L("pclose", h=h, ok=C(c, "pclose", slot(h))["rc"] >= 0)
                del pset[hk]
        elif op == "ccreate":
            n = conc.cname(cmd["name"])
            r = C(c, "ccreate", slot(h), enc(n), "cp")
            L("ccreate", h=h, name=n, id=ids(r["meta"]) if r["ok"] else "0")
            handles[hk] = "c"
        elif op == "copen":
            n = conc.cname(cmd["name"])
            r = C(c, "copen", slot(h), enc(n))
            L("copen", h=h, name=n, id=ids(r["meta"]) if r["ok"] else "0")
            if r["ok"]:
                handles[hk] = "c"
        elif op == "close":
            if hk in handles:
                k = handles.pop(hk)
                L("close", h=h, ok=C(c, "cclose" if k == "c" else "oclose", slot(h))["rc"] >= 0)
        elif op == "cdel":
            if handles.get(hk) == "c":
                L("cdel", h=h, ok=C(c, "cdel", slot(h))["rc"] >= 0)
        elif op == "ocreate":
            hc = tuple(cmd["hc"])
            if handles.get(hc) != "c" or tuple(cmd["p"]) not in pset:
                return
            n = conc.oname(cmd["name"])
            r = C(c, "ocreate", slot(h), slot(cmd["hc"]), enc(n), slot(cmd["p"]))
            L("ocreate", h=h, hc=cmd["hc"], name=n, p=cmd["p"], id=ids(r["meta"]) if r["ok"] else "0")
            seen.append((n, rng.choice([0, 1])))
            if r["ok"]:
                handles[hk] = "o"
        elif op == "oopen":
            n = conc.oname(cmd["name"])
            r = C(c, "oopen", slot(h), enc(n))
            if r["ok"]:
                handles[hk] = "o"
                L("oopen", h=h, name=n, id=ids(r["meta"]), dims=orec(r), type=r["type"], part=r["part"])
            else:
                L("oopen", h=h, name=n, id="0", dims=[], type=-1, part=1)
        elif op in ("oinfo", "odims"):
            if handles.get(hk) != "o":
                return
            r = C(c, op, slot(h))
            if op == "odims":
                L("odims", h=h, dims=r.get("dims", []))
                if r["ndim"] and rng.random() < .5:
                    d = [rng.choice([1, 5, 9, 77]) for _ in range(r["ndim"])]
                    if len(d) <= 3:
                        ok = C(c, "osetdims", slot(h), len(d), *d)["rc"] >= 0
                        L("setdims", h=h, dims=d, ok=ok)
                        L("odims", h=h, dims=C(c, "odims", slot(h)).get("dims", []))
            else:
                L("oinfo", h=h, name=r["name"], id=ids(r["meta"]), dims=orec(r), type=r["type"], part=r["part"], cons=r["cons"])
        elif op == "odel":
            if handles.get(hk) == "o":
                L("odel", h=h, ok=C(c, rng.choice(["odel", "delid"]), slot(h))["rc"] >= 0)
        elif op == "delname":
            if tuple(cmd["p"]) in pset and not ncrowd:   # which of a crowd goes is not determined
                n = conc.oname(cmd["name"])
                C(c, "delname", enc(n), slot(cmd["p"]))
                L("delname", name=n, p=cmd["p"])
        elif op == "tput":
            if hk in handles:
                k = conc.key(cmd["key"])
                t, v = conc.val(cmd["val"])
                puts.append((hk, k, t, v))
                L("tput", h=h, key=e2e.codes(k), type=t, val=list(v),
                  ok=C(c, "tput", handles[hk], slot(h), enc(k), t, hexs(v))["rc"] >= 0)
        elif op == "tget":
            if hk in handles:
                k = conc.key(cmd["key"])
                mine = [p[1] for p in puts if p[0] == hk]
                if mine and rng.random() < .6:
                    k = rng.choice(mine)
                r = C(c, "tget", handles[hk], slot(h), enc(k))
                L("tget", h=h, key=e2e.codes(k),
                  res=[r["type"], list(bytes.fromhex(r["val"]))] if r.get("rc", -1) >= 0 and "val" in r else ["none"])
        elif op == "tdel":
            if hk in handles:
                k = conc.key(cmd["key"])
                L("tdel", h=h, key=e2e.codes(k), ok=C(c, "tdel", handles[hk], slot(h), enc(k))["rc"] >= 0)
        elif op == "addtag":
            if handles.get(hk) == "o":
                t = conc.text(cmd["text"])
                r = C(c, "addtag", slot(h), enc(t))
                L("addtag", h=h, text=e2e.codes(t), ok=r["rc"] >= 0)
        elif op == "kvq":
            k = conc.key(cmd["key"])
            t, v = conc.val(cmd["val"])
            if puts and rng.random() < .8:
                k, t, v = rng.choice(puts)[1:]
            if t != 4 and rng.random() < .2:
                t = rng.choice(NUM)
            k = pattern(rng, k.encode("latin-1"))
            if t == 4:
                v = pattern(rng, v[:-1]) + b"\0"
            ask_kv(lambda *w: C(c, *w), L, ids, k, t, v)
        elif op == "qtag":
            t = conc.text(cmd["key"])
            r = C(c, "qtag", enc(t))
            L("qtag", text=e2e.codes(t), ids=[ids(o["meta"]) for o in r["objs"]])
        elif op in ("listall", "partq"):
            seq = []
            q = {"user": rng.choice([0, -1, 1, 2]), "app": "", "name": "", "t0": 0, "t1": 0, "ndim": 0, "text": []}
            if rng.random() < .4:
                q["app"] = conc.app(rng.choice(["a", "b"]))
            if rng.random() < .4:
                q["name"] = conc.oname(cmd["name"])
                if q["name"] == " ":
                    q["name"] = ""
            if rng.random() < .4:
                q["t0"], q["t1"] = sorted((rng.randint(0, 3), rng.randint(0, 5)))
            if rng.random() < .4:
                q["ndim"] = rng.randint(0, 3)
            if rng.random() < .4:
                q["text"] = e2e.codes(conc.text(cmd["key"]))
            # the clients share the servers out between them; one server is asked by the client of the same number
            for cc in [c] if par else range(run.ncl):
                if op == "listall":
                    r = C(cc, "listall")
                else:
                    r = C(cc, "partq", q["user"], enc(q["app"] or None), enc(q["name"] or None), q["t0"], q["t1"], q["ndim"],
                          enc(bytes(q["text"]) or None))
                seq += [[ids(o["meta"]), o["name"], o["ts"]] for o in r["objs"]]
            if op == "listall":
                L("listall", seq=seq)
            else:
                L("partq", q=q, seq=seq)
        elif op == "oexists":
            exists(lambda *w: C(c, *w), L, ids, conc.oname(cmd["name"]), cmd["ts"])
        elif op == "citer":
            r = C(c, "citer")
            L("citer", c=c, seq=[[x["name"], ids(x["meta"])] for x in r["conts"]])
        elif op == "oiter":
            hc = tuple(cmd["hc"])
            if handles.get(hc) == "c":
                r = C(c, "oiter", slot(cmd["hc"]))
                L("oiter", c=c, hc=cmd["hc"], seq=[[x["name"], ids(x["meta"])] for x in r["objs"]])
        else:
            raise RuntimeError("unknown command %s" % op)

    if not par:
        for cmd in hist:
            do(cmd, C, L, rng)
    else:
        overlap(run, hist, rng, conc, do)
    audit(run, rng, ids, puts, seen)


# calls that ask several servers, or one server several times, are no single step
STEPS = {"prop", "pset", "pclose", "ccreate", "copen", "close", "cdel", "ocreate", "oopen", "oinfo", "odims", "odel", "tput", "tget",
         "tdel", "addtag", "oexists", "citer", "oiter"}
ASKS = {"kvq", "qtag", "listall", "partq"}    # one step where there is one server


def overlap(run, hist, rng, conc, do):
    """the clients go through their calls at the same time, each its own; what overlaps is in the events"""
    clock = itertools.count(1)
    ok = STEPS | ASKS if run.nserv == 1 else STEPS
    for cmd in hist:      # names do not depend on who comes first
        if cmd["op"] in ok:
            for f, a in ((conc.cname if cmd["op"] in ("ccreate", "copen") else conc.oname, "name"), (conc.key, "key"), (conc.val, "val"),
                         (conc.app, "app")):
                if a in cmd and not (cmd["op"] == "addtag" and a == "key"):
                    f(cmd[a])
    at = 0
    while at < len(hist):
        n = rng.randint(6, 24)
        part, at = [x for x in hist[at:at + n] if x["op"] in ok and (x["op"] not in ("listall", "partq") or x["c"] == 0)], at + n
        logs = [[] for _ in range(run.ncl)]
        fails = []

        def client(c, seed, mine):
            r = random.Random(seed)
            began = []

            def C(k, *w):
                if not began:
                    began.append(next(clock))
                return run(k, *w)

            def L(op, **kw):
                logs[c].append(dict(kw, op=op, inv=began[0] if began else next(clock), ret=next(clock)))
                began.clear()
            try:
                for cmd in mine:
                    do(cmd, C, L, r)
            except Exception as x:
                fails.append(x)
        ts = []
        for c in range(run.ncl):
            mine = [x for x in part if (x["h"][0] if x.get("h") else x.get("c", 0)) == c]
            if c == 0 and run.nserv == 1:
                for _ in range(rng.choice([0, 0, 2, 6])):
                    mine.insert(rng.randint(0, len(mine)), {"op": "listall", "c": 0, "name": "X", "key": [107]})
            ts.append(threading.Thread(target=client, args=(c, rng.random(), mine)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        ev = sorted((e for x in logs for e in x), key=lambda e: e["ret"])
        run.log("par", n=len(ev))
        run.ev += ev
        if fails:
            raise fails[0]


def runner(job):
    rng = random.Random(job["seed"])
    run = e2e.Run(job["nserv"], job["ncl"], seed=job["seed"], shuffle=job.get("shuffle", False), env=job.get("env"),
                  variant=job.get("variant"))
    if job.get("crash"):
        run.cl.quiet = True
        run.cl.full = rng.random() < .4
    conc = Conc(rng, job.get("odd", False))
    return e2e.job(run, lambda r: execute(r, job["hist"], rng, conc, job.get("crowd", 0), job.get("par", False)))
