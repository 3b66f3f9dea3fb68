"""The common frame of the checks: scopes, evidence, violations, known findings, parallel work."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import tlc  # noqa: E402

NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%s" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.events = 0
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.known = []

    def left(self, quick, thorough):
        """seconds left of this check's own budget"""
        return (quick if self.quick else thorough) - (time.time() - self.t0)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- model checking
    def model_check(self, module, cfg=None, **kw):
        r = tlc.model_check(module, cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.notes.append("%s/%s: %d distinct states, %d transitions, depth %d" %
                          (module, cfg or module + ".cfg", r.distinct, r.generated, r.depth))
        return r

    # ---- conformance
    def conformance(self, runner, jobs, module, cfg=None, chunk=None, timeout=600, label="", env=None,
                    procs=None, keep_going=False, explain=None):
        """Runs every job on the implementation, validates the recorded traces against the specification.

        runner(job) -> {"events": [...]} or {"crash": text, "events": [...]}.  Events of one job start with a reset.
        A rejection or a crash is only reported when a second run of the same job ends the same way."""
        t0 = time.time()
        procs = procs or NPROC
        if len(jobs) > 1:
            with mp.get_context("fork").Pool(min(procs, len(jobs)), maxtasksperchild=200) as pool:
                res = pool.map(_safe(runner), jobs, chunksize=max(1, len(jobs) // (procs * 8)))
        else:
            res = [_safe(runner)(j) for j in jobs]
        for j, r in zip(jobs, res):
            if r.get("error"):
                raise RuntimeError("harness error on %s: %s" % (str(j)[:400], r["error"]))
        t1 = time.time()
        bad = []
        for k, r in enumerate(res):
            if r.get("crash"):
                bad.append((k, r["crash"], None))
        good = [k for k, r in enumerate(res) if not r.get("crash") and r["events"]]
        nev = sum(len(res[k]["events"]) for k in good)
        self.events += nev
        nchunk = max(1, min(procs, nev // 1500 + 1)) if not chunk else max(1, len(good) // chunk)
        groups = [good[i::nchunk] for i in range(nchunk)]
        groups = [g for g in groups if g]

        def val(g):
            evs, owner = [], []
            for k in g:
                for i, e in enumerate(res[k]["events"]):
                    evs.append(e)
                    owner.append((k, i))
            at = tlc.validate(module, evs, cfg, timeout=timeout, env=env)
            if at is None:
                return None
            return owner[min(at, len(owner) - 1)]
        with cf.ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(val, groups))
        for o in outs:
            if o is not None:
                k, i = o
                bad.append((k, None, i))
        acc = len(good) - sum(1 for o in outs if o is not None)
        self.cov["traces_validated_against_impl"] += acc
        for k in good[:: max(1, len(good) // 2)][:2]:
            self.sample(label or module, res[k]["events"])
        self.notes.append("%s%s: %d runs, %d events validated (run %.1fs, validate %.1fs)" %
                          (label and label + " ", module, len(jobs), nev, t1 - t0, time.time() - t1))
        for k, crash, i in bad[:6]:
            self._confirm(runner, jobs[k], module, cfg, env, timeout, label, crash, i, res[k]["events"])
            if self.violations and not keep_going:
                return res
        return res

    def _confirm(self, runner, job, module, cfg, env, timeout, label, crash, idx, first=()):
        """run the job again; only what happens again is reported"""
        for _ in range(job.get("again", 3) if isinstance(job, dict) else 3):
            r = _safe(runner)(job)
            if r.get("error"):
                raise RuntimeError("harness error on %s: %s" % (str(job)[:400], r["error"]))
            if r.get("crash"):
                self.violation("%s: %s" % (label, r["crash"].strip().splitlines()[0][:300]),
                               {"job": job, "crash": r["crash"], "events": r["events"][-60:], "module": module})
                return True
            at = tlc.validate(module, r["events"], cfg, timeout=timeout, env=env)
            if at is not None:
                at = min(at, len(r["events"]) - 1)
                self.violation("%s: event %d is not allowed by %s: %s" %
                               (label, at, module, json.dumps(r["events"][at])[:300]),
                               {"job": job, "module": module, "event": at, "rejected": r["events"][at],
                                "events": r["events"][: at + 1]})
                return True
        self.notes.append("not reproduced: %s %s" % (label, crash or "event %d: %s" % (idx, json.dumps(first[max(0, idx - 12):idx + 1]))))
        return False

    def sample(self, label, events):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append({"what": label, "events": [json.dumps(e)[:160] for e in events[:12]],
                                        "length": len(events)})

    def violation(self, what, detail):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay_%s_%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as h:
            json.dump({"property": self.prop, "what": what, "detail": detail}, h, indent=1, default=str)
        self.violations.append((what, path))

    def known_finding(self, key):
        """the recorded finding with this key was seen again; one that is not recorded is a violation"""
        with open(os.path.join(VERIF, "known-findings.txt")) as h:
            for line in h:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    if m.group(3) not in self.known:
                        self.known.append(m.group(3))
                    return True
        return False

    def evidence(self, level):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions or self.notes:
            e["assumptions"] = self.assumptions + self.notes
        if self.violations:
            e["violations"] = len(self.violations)
        with open(os.path.join(d, self.prop + ".json"), "w") as h:
            json.dump(e, h, indent=1)


class _safe:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, job):
        try:
            return self.fn(job)
        except Exception:
            return {"error": traceback.format_exc(), "events": []}


def main(prop, fn, level="model_checking"):
    import pdcbuild
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
    except pdcbuild.BuildError as e:
        print("build of the tree under test failed: %s" % str(e)[-3000:])
        sys.exit(2)
    except tlc.ModelError as e:
        print("model error: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    ctx.evidence(level)
    for n in ctx.notes:
        print(n)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if ctx.violations:
        for what, path in ctx.violations:
            print(what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("%s: held on everything explored (%.1fs)" % (prop, time.time() - ctx.t0))
    sys.exit(0)
