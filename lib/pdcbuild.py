"""Compile /repo's current working tree, offline, into /verif/build (ignored by git).

Objects are named by a hash of everything that goes into them (source text, all headers, flags), so a stale
object can never be used for a changed tree, and nothing is written under /repo.
"""
import threading
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SHIM = os.path.join(VERIF, "shim")


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


DEFAULT_ON = {"ENABLE_MPI", "PDC_SERVER_CACHE", "PDC_ENABLE_CHECKPOINT", "HAVE_ATTRIBUTE", "PDC_DART_SFX_TREE"}
SIZES = dict(FLOAT=4, DOUBLE=8, CHAR=1, SINT=2, INT=4, LINT=8, LLINT=8, UINT=4, ULINT=8, ULLINT=8, U64INT=8)
SIZES["64INT"] = 8


def _configure(text, on, values):
    """cmake's configure_file for the two headers of this project"""
    out = []
    for line in text.split("\n"):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            name, rest = m.group(1), m.group(2)
            if name in on or name in values:
                line = "#define %s%s" % (name, rest)
            else:
                line = "/* #undef %s */" % name
        line = re.sub(r"@(\w+)@", lambda k: str(values.get(k.group(1), "")), line)
        out.append(line)
    return "\n".join(out)


class Tree:
    """One configuration of the tree: `on`/`off` switch cmake options, `defs` adds -D flags, `san` sanitizers."""

    def __init__(self, name="base", on=(), off=(), defs=(), san="", opt="-O1"):
        self.name = name
        self.on = (DEFAULT_ON | set(on)) - set(off)
        self.defs = list(defs)
        self.san = san
        self.opt = opt
        self.src = os.path.join(REPO, "src")
        values = {"VAR_SIZE_" + k: v for k, v in SIZES.items()}
        values.update(PDC_VERSION_MAJOR="0", PDC_VERSION_MINOR="1", PDC_VERSION_PATCH="0")
        a = _configure(_read(os.path.join(REPO, "pdc_config_sys.h.cmake")).decode(), self.on, values)
        b = _configure(_read(os.path.join(REPO, "pdc_config.h.in")).decode(), self.on, values)
        self.cfgdir = os.path.join(BUILD, "cfg-" + _sha(a, b))
        os.makedirs(self.cfgdir, exist_ok=True)
        for n, t in (("pdc_config_sys.h", a), ("pdc_config.h", b)):
            p = os.path.join(self.cfgdir, n)
            if not os.path.exists(p):
                tmp = p + ".%d" % threading.get_native_id()
                with open(tmp, "w") as f:
                    f.write(t)
                os.replace(tmp, p)
        dirs, hh = [], []
        for root, ds, fs in sorted(os.walk(self.src)):
            ds.sort()
            if "/tests" in root[len(self.src):]:
                continue
            hs = [f for f in sorted(fs) if f.endswith(".h")]
            if hs:
                dirs.append(root)
                hh += [_read(os.path.join(root, h)) for h in hs]
        for h in sorted(os.listdir(os.path.join(SHIM, "include"))):
            hh.append(_read(os.path.join(SHIM, "include", h)))
        self.dirs = dirs
        self.hdrhash = _sha(a, b, *hh)

    def flags(self, extra=()):
        f = ["-std=gnu99", "-fcommon", "-g", self.opt, "-w", "-fPIC", "-DPDC_SERVER_CACHE_MAX_GB=3",
             "-DPDC_LUSTRE_TOTAL_OST=256",
             "-DHAVE_MALLOC_USABLE_SIZE", "-I" + os.path.join(SHIM, "include"), "-I" + self.cfgdir, "-I" + REPO]
        if not any(d.startswith("-DPDC_SERVER_CACHE_FLUSH_TIME") for d in self.defs + list(extra)):
            f.append("-DPDC_SERVER_CACHE_FLUSH_TIME=30")
        if self.san:
            f += ["-fsanitize=" + self.san, "-fno-omit-frame-pointer"]
        # headers below /repo/src, but never with a directory that would shadow a system header
        return f + self.defs + list(extra) + ["-I" + d for d in self.dirs]

    def obj(self, path, extra=(), hdr=True):
        fl = self.flags(extra)
        key = _sha(_read(path), path, " ".join(fl), self.hdrhash)
        d = os.path.join(BUILD, "obj")
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, os.path.basename(path) + "." + key + ".o")
        return o, ["gcc"] + fl + ["-c", path, "-o"]

    def compile(self, jobs):
        """jobs: list of (path, extra flags) -> list of object files"""
        todo, outs = [], []
        for path, extra in jobs:
            o, cmd = self.obj(path, extra)
            outs.append(o)
            if not os.path.exists(o) and o not in [t[0] for t in todo]:
                todo.append((o, cmd))

        def one(t):
            o, cmd = t
            tmp = o + ".%d.tmp" % threading.get_native_id()
            r = subprocess.run(cmd + [tmp], capture_output=True, text=True)
            if r.returncode:
                return " ".join(cmd[-3:]) + "\n" + r.stderr[-4000:]
            os.replace(tmp, o)
            return None

        with cf.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise BuildError("\n".join(errs))
        return outs

    def archive(self, objs):
        key = _sha(" ".join(objs))
        a = os.path.join(BUILD, "obj", "lib%s.a" % key)
        if not os.path.exists(a):
            tmp = a + ".%d.tmp" % threading.get_native_id()
            r = subprocess.run(["ar", "rcs", tmp] + objs, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr)
            os.replace(tmp, a)
        return a

    def link(self, name, objs, libs=()):
        key = _sha(" ".join(objs), " ".join(libs), self.san, *[_read(o) for o in objs])
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "%s.%s%s" % (name, self.san.replace(",", "-") + "." if self.san else "", key))
        if os.path.exists(exe):
            return exe
        tmp = exe + ".%d.tmp" % threading.get_native_id()
        cmd = ["gcc", "-g", "-rdynamic", "-o", tmp] + (["-fsanitize=" + self.san] if self.san else []) + objs
        cmd += list(libs) + ["-luuid", "-lm", "-ldl", "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-6000:])
        os.replace(tmp, exe)
        return exe

    # ---- source lists -------------------------------------------------------------------------------------
    def _cmake_list(self, cmakefile, start, fallback):
        try:
            text = _read(os.path.join(self.src, cmakefile)).decode()
            i = text.index(start)
            body = text[i + len(start):text.index(")", i)]
            out = []
            for w in body.split():
                w = w.replace("${PDC_SOURCE_DIR}", REPO)
                if not w.endswith(".c"):
                    continue
                if not w.startswith("/"):
                    w = os.path.join(self.src, os.path.dirname(cmakefile), w)
                out.append(w)
            if out and all(os.path.exists(p) for p in out):
                return out
        except (ValueError, OSError):
            pass
        return [os.path.join(self.src, f) for f in fallback]

    def server_sources(self):
        return self._cmake_list("server/CMakeLists.txt", "add_library(pdc_server_lib", [])

    def api_sources(self):
        return self._cmake_list("api/CMakeLists.txt", "set(PDC_SRCS", [])

    def commons_sources(self):
        out = []
        for root, ds, fs in sorted(os.walk(os.path.join(self.src, "commons"))):
            ds.sort()
            if root.endswith("/serde"):
                continue
            for f in sorted(fs):
                if f.endswith(".c") and not f.endswith("_test.c"):
                    out.append(os.path.join(root, f))
        return out

    # ---- targets ------------------------------------------------------------------------------------------
    def shim_jobs(self):
        return [(os.path.join(SHIM, "minihg.c"), []), (os.path.join(SHIM, "minimpi.c"), [])]

    def server(self, extra=(), libs=()):
        s = ["-DIS_PDC_SERVER=1"] + list(extra)
        jobs = [(p, s) for p in self.server_sources()]
        jobs.append((os.path.join(self.src, "server/pdc_server_main.c"), s))
        return self._program("pdc_server", jobs + self.shim_jobs(), [], libs)

    def _program(self, name, jobs, extra, libs=()):
        cj = [(p, list(extra)) for p in self.commons_sources()]
        objs = self.compile(jobs + cj)
        return self.link(name, objs[:len(jobs)] + [self.archive(objs[len(jobs):])], libs)

    def client(self, name, mains, extra=(), libs=()):
        jobs = [(p, list(extra)) for p in self.api_sources()]
        jobs += self.shim_jobs() + [(p, list(extra)) for p in mains]
        return self._program(name, jobs, extra, libs)

    def commons(self, name, mains, more=(), extra=()):
        """a program from src/commons, further sources (absolute, or relative to src/) and our own mains"""
        jobs = [(p if p.startswith("/") else os.path.join(self.src, p), list(extra))
                for p in list(more) + list(mains)]
        return self._program(name, jobs + self.shim_jobs(), extra)


if __name__ == "__main__":
    import time
    t0 = time.time()
    t = Tree()
    try:
        print(t.server())
        print(time.time() - t0)
        print(t.client("close_server", [os.path.join(REPO, "src/api/close_server.c")]))
    except BuildError as e:
        print(e)
        sys.exit(1)
    print(time.time() - t0)
