"""What the end-to-end checks share: the build, and one run = one cluster plus a list of events."""
import os
import random
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cluster as C  # noqa: E402
import pdcbuild as B  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_built = {}


def build(**kw):
    key = tuple(sorted(kw.items()))
    if key not in _built:
        t = B.Tree(**kw)
        _built[key] = (t.server(), t.client("pdcdrv", [os.path.join(VERIF, "drv", "pdcdrv.c")]))
    return _built[key]


# other builds of the same code
VARIANTS = {"asan": dict(san="address,undefined", name="asan"), "nocache": dict(off=("PDC_SERVER_CACHE",), name="nocache")}


def turn(k, variants):
    """the build of a thorough round: the usual one first, and then every other time"""
    v = (None,) + tuple(variants)
    v = v[k % len(v)]
    build(**VARIANTS.get(v, {}))
    return v


class Ids:
    """64-bit ids as small names, in the order in which they appear"""

    def __init__(self):
        self.m = {}
        self.lock = threading.Lock()

    def __call__(self, x):
        x = str(x)
        if x == "0":
            return "0"
        with self.lock:
            if x not in self.m:
                self.m[x] = "i%d" % (len(self.m) + 1)
            return self.m[x]


def codes(s):
    if isinstance(s, bytes):
        return list(s)
    return list(s.encode("latin-1"))


class Run:
    """a cluster, its clients, and the events recorded so far"""

    def __init__(self, nserv=1, nclient=1, env=None, timeout=15, seed=0, shuffle=False, built=None, variant=None):
        s, c = built or build(**VARIANTS.get(variant, {}))
        e = dict(env or {})
        if variant == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0"
        if shuffle:
            e["MM_SHUFFLE"] = str(seed + 1)
        self.cl = C.Cluster(s, c, nserv, env=e, timeout=timeout)
        self.nserv, self.ncl = nserv, nclient
        self.rng = random.Random(seed)
        self.ev = [{"op": "reset"}]
        self.k = []

    def __enter__(self):
        self.cl.__enter__()
        return self

    def __exit__(self, *a):
        return self.cl.__exit__(*a)

    def start(self, restart=False):
        self.cl.start_servers(restart=restart)
        self.k = self.cl.start_clients(self.ncl)

    def restart(self):
        self.stop()
        self.start(restart=True)

    def settle(self):
        """returns when every server has done what it was asked for"""
        self(0, "kvq", "no-such-tag", 0, "00")

    def checkpoint(self, room=None):
        """the servers save a checkpoint; with `room`, only that many bytes of it can be written"""
        if room is not None:
            self.settle()
            self.cl.limit_files(room)
        r = self(0, "ckpt")
        if r["rc"] < 0:
            raise C.Crash("checkpoint refused", self.cl.logs())
        if room is not None or self.rng.random() < .5:
            self.settle()
        if room is not None:
            self.cl.limit_files(None)

    def crash(self, room=None):
        """the servers end at once (with `room`: while they save a checkpoint, after so many bytes) and start again"""
        self.settle()
        if room is not None:
            self.cl.limit_files(room)
            self.k[0].send("ckpt")
            end = time.time() + self.rng.choice([0, .001, .003, .01, .02])
            while time.time() < end and None in self.cl.server_status():
                time.sleep(.0005)
        self.cl.kill_servers()
        for k in self.k:
            k.stop()
        self.cl.clients = []
        tmp = os.path.join(self.cl.dir, "tmp")
        self.start(restart=any(os.path.exists(os.path.join(tmp, str(r), "metadata_checkpoint.%d" % r)) for r in range(self.nserv)))

    def stop(self):
        """the clients close the library; then another client stops the servers, which save a checkpoint"""
        for k in self.k:
            k.send("fini")
        for k in self.k:
            if k.recv().get("rc", -1) < 0:
                raise C.Crash("PDCclose failed", self.cl.logs())
        for k in self.k:
            k.send("quit")
            try:
                rc = k.p.wait(self.cl.timeout)
            except C.subprocess.TimeoutExpired:
                raise C.Crash("client did not end after PDCclose", self.cl.logs())
            if rc != 0:
                raise C.Crash("client exit status %s" % rc, self.cl.logs())
            k.stop()
        self.cl.clients = []
        self.cl.shutdown(self.cl.start_clients(1)[0])

    def __call__(self, c, *words):
        r = self.k[c](*words)
        if not isinstance(r, dict) or r.get("op") != words[0]:
            raise C.Crash("unexpected answer to %s: %r" % (words, r), self.cl.logs())
        return r

    def log(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.ev.append(e)


def job(run, body):
    """run body(run) on a fresh cluster; the outcome for Ctx.conformance"""
    try:
        with run:
            try:
                run.start()
                body(run)
                run.stop()
            except C.Crash as x:
                return {"crash": "%s\n%s" % (x.what, x.log), "events": run.ev}
            except (KeyError, TypeError, ValueError) as x:
                return {"crash": "unusable answer: %r" % x, "events": run.ev}
    except C.Crash as x:
        return {"crash": "%s\n%s" % (x.what, x.log), "events": run.ev}
    return {"events": run.ev}
