"""A cluster of real PDC servers and command-driven clients in a scratch directory, on the stand-in transport."""
import json
import os
import re
import resource
import select
import shutil
import signal
import subprocess
import tempfile
import time


class Crash(Exception):
    """a process of the system under test ended, or did not answer in time"""

    def __init__(self, what, log=""):
        super().__init__(what)
        self.what = what
        self.log = log


def enc(s):
    """a string argument of the driver"""
    if s is None:
        return "-"
    if isinstance(s, str):
        s = s.encode("latin-1")
    if s == b"":
        return "%"
    out = []
    for c in s:
        ch = chr(c)
        if ch.isalnum() and c < 128 or ch in "_.,:;=*/+~|@":
            out.append(ch)
        else:
            out.append("%%%02x" % c)
    r = "".join(out)
    return r


def hexs(b):
    return b.hex() if b else "-"


class Client:
    def __init__(self, cl, rank, size, group):
        self.cl = cl
        self.rank = rank
        self.log = os.path.join(cl.dir, "client%s_%d.log" % (group, rank))
        env = cl.env(MM_RANK=str(rank), MM_SIZE=str(size), MM_MPI_DIR=os.path.join(cl.dir, "mpic" + group))
        env["MALLOC_PERTURB_"] = "165"
        self.p = subprocess.Popen([cl.client_exe, self.log], cwd=cl.dir, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=open(self.log + ".err", "a"))
        self.buf = b""
        self.cmds = []

    def send(self, line):
        self.cmds.append(line)
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def ready(self, timeout):
        """is there an answer (or an end of it)?"""
        return b"\n" in self.buf or bool(select.select([self.p.stdout], [], [], timeout)[0])

    def recv(self, timeout=None):
        timeout = timeout or self.cl.timeout
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise Crash("no answer within %ss to: %s" % (timeout, self.cmds[-1][:200]), self.cl.logs())
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                continue
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.p.wait()
                raise Crash("client died (status %s) in: %s; servers %s" % (self.p.returncode, self.cmds[-1][:200], self.cl.server_status()),
                            self.cl.logs())
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def __call__(self, *words, timeout=None):
        self.send(" ".join(str(w) for w in words))
        return self.recv(timeout)

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


class Cluster:
    def __init__(self, server_exe, client_exe, nserv=1, env=None, timeout=20, keep=False):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="pdcv", dir=base)
        self.server_exe, self.client_exe = server_exe, client_exe
        self.nserv = nserv
        self.extra = env or {}
        self.timeout = timeout
        self.keep = keep
        self.srv = []
        self.clients = []
        self.gen = 0
        self.cgen = 0
        self.full = False     # servers see an error, and not a signal, when a file may not grow
        self.quiet = False    # no server logs

    def env(self, **kw):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir,
             "PDC_TMPDIR": os.path.join(self.dir, "tmp"), "PDC_DATA_LOC": os.path.join(self.dir, "data"),
             "LC_ALL": "C"}
        if not re.search(r"\.(address|thread|undefined)", os.path.basename(self.server_exe)):
            e["MM_MEM"] = str(2 << 30)     # a process that runs wild must not take the memory of the others
        e.update(self.extra)
        e.update(kw)
        return e

    def logs(self):
        out = []
        for f in sorted(os.listdir(self.dir)):
            if ".log" in f:
                try:
                    with open(os.path.join(self.dir, f), errors="replace") as h:
                        t = h.read()[-1500:]
                    if t.strip():
                        out.append("--- %s\n%s" % (f, t))
                except OSError:
                    pass
        return "\n".join(out)[-9000:]

    def start_servers(self, restart=False, nserv=None, check=True):
        if nserv:
            self.nserv = nserv
        self.gen += 1
        cfg = os.path.join(self.dir, "tmp", "server.cfg")
        if os.path.exists(cfg):
            os.unlink(cfg)
        self.srv = []
        for r in range(self.nserv):
            env = self.env(MM_RANK=str(r), MM_SIZE=str(self.nserv), MALLOC_PERTURB_="165",
                           MM_MPI_DIR=os.path.join(self.dir, "mpis%d" % self.gen))
            log = open("/dev/null" if self.quiet else os.path.join(self.dir, "server%d_%d.log" % (self.gen, r)), "a")
            self.srv.append(subprocess.Popen([self.server_exe] + (["restart"] if restart else []), cwd=self.dir,
                                             env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                             restore_signals=not self.full))
            log.close()
        end = time.time() + self.timeout
        while True:
            if os.path.exists(cfg):
                t = open(cfg).read().split("\n")
                if len([x for x in t if x.strip()]) >= self.nserv + 1:
                    break
            for p in self.srv:
                if p.poll() is not None:
                    raise Crash("server died at start (status %s)" % p.returncode, self.logs())
            if time.time() > end:
                raise Crash("servers did not come up", self.logs())
            time.sleep(0.002)
        # every server answers its socket once it is listening; the client library retries by itself

    def start_clients(self, n=1):
        self.cgen += 1
        new = [Client(self, r, n, str(self.cgen)) for r in range(n)]
        self.clients += new
        for c in new:
            c.send("init")
        for c in new:
            r = c.recv()
            if not r.get("ok"):
                raise Crash("PDCinit failed", self.logs())
        return new

    def server_status(self):
        return [p.poll() for p in self.srv]

    def shutdown(self, c):
        """close every server through the API (they checkpoint and exit), then end the clients"""
        c.send("closeall")
        end = time.time() + self.timeout
        for p in self.srv:
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                raise Crash("server did not exit after close", self.logs())
        bad = [p.returncode for p in self.srv if p.returncode != 0]
        for k in self.clients:
            k.stop()
        self.clients = []
        if bad:
            raise Crash("server exit status %s at close" % bad, self.logs())

    def limit_files(self, size):
        """no file of a server can grow beyond this size (None: any size)"""
        n = resource.RLIM_INFINITY if size is None else size
        for p in self.srv:
            if p.poll() is None:
                resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))

    def kill_servers(self, sig=signal.SIGKILL):
        for p in self.srv:
            if p.poll() is None:
                p.send_signal(sig)
            p.wait()

    def end(self):
        for c in self.clients:
            c.stop()
        for p in self.srv:
            if p.poll() is None:
                p.kill()
            p.wait()
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.end()
