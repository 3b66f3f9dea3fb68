"""Concretises histories of PdcIndex and runs them on real clients and servers."""
import random
import threading

import e2e
from cluster import enc

POOL = ["a", "b", "c", "x", "z", "0", "9", "_", "-", " ", "A", "Z", "ab", "ba", "aa", "xyz", ".", "/", ":", "key", "time", "1", "12", ","]
DART, FULL, INITIAL = 3, 1, 2


def runner(job):
    R = random.Random(job["seed"])
    algo = job.get("algo") or R.choice([DART, DART, DART, DART, FULL, INITIAL])
    ref = R.choice([1, 1, 2, 3])
    nserv = job.get("nserv") or R.choice([1, 2, 2, 3, 4, 5])
    ncl = R.choice([2, 3, 4]) if job.get("par") else R.choice([1, 1, 2, 3])
    pool = POOL + ["\xe9", "\xff"] * job.get("odd", 0)
    chars = dict(zip([1, 2, 3, 4], R.sample(pool, 4)))
    objs = dict(zip([1, 2, 3, 4], R.sample([1, 2, 77, 1000000007, 2 ** 31, 2 ** 32 + 5, 2 ** 63, 2 ** 64 - 1] +
                                           [R.getrandbits(64) for _ in range(6)], 4)))
    names = {v: k for k, v in objs.items()}

    def text(s):
        return "".join("*" if x == 42 else chars[x] for x in s)

    run = e2e.Run(nserv, ncl, seed=job["seed"], shuffle=R.random() < .3, built=job["built"],
                  env=job.get("env"))

    def call(c, k):
        """makes the call of client k -> (what was asked, what came of it)"""
        if c["op"] == "ask":
            kp, vp = text(c["kp"]), text(c["vp"])
            f = dict(kp=e2e.codes(kp), vp=e2e.codes(vp))
            return f, lambda: answer(run(k, "dq", algo, ref, enc(kp + "=" + vp)))
        key, val, o = text(c["k"]), text(c["v"]), c["o"]
        f = dict(k=e2e.codes(key), v=e2e.codes(val), o=o)
        w = "dins" if c["op"] == "add" else "ddel"
        return f, lambda: dict(ok=run(k, w, algo, ref, enc(key), enc(val), objs[o])["rc"] >= 0)

    def answer(r):
        return dict(n=r["n"], ids=[names.get(int(x), 99) for x in r["ids"]])

    def one(c):
        f, go = call(c, c["c"] % ncl)
        run.log(c["op"], **f, **go())

    def together(part):
        """the clients make their calls at the same time; an object's attributes are one client's"""
        lock, fails = threading.Lock(), []

        def client(k, mine):
            try:
                for c in mine:
                    f, go = call(c, k)
                    with lock:
                        run.log("begin", c=k, call=c["op"], **f)
                    r = go()
                    with lock:
                        run.log("end", **dict(dict(c=k, ok=True, n=0, ids=[]), **r))
            except Exception as x:
                fails.append(x)
        ts = []
        for k in range(ncl):
            mine = [c for c in part if (c["c"] if c["op"] == "ask" else c["o"]) % ncl == k]
            ts.append(threading.Thread(target=client, args=(k, mine)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if fails:
            raise fails[0]

    def body(run):
        h = job["hist"]
        if job.get("par"):
            while h:
                n = R.choice([6, 12, 30])
                together(h[:n])
                for c in R.sample(h[:n], min(len(h), 2)):
                    if c["op"] == "ask":
                        one(c)
                h = h[n:]
        else:
            for c in h:
                one(c)
    return e2e.job(run, body)
