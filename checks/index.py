"""Checks decided with PdcDart and PdcIndex: the distributed metadata index."""
import dart
import e2e
import mdindex
import tlc


def routing(ctx):
    exe = dart.build()
    ctx.model_check("MCPdcDart", "MCPdcDart.cfg")
    k = 0
    while not ctx.violations:
        k += 1
        steps = 60 if ctx.quick else ctx.rng.choice([60, 120])
        hs = tlc.behaviours("MCPdcDart", "GenPdcDart.cfg", ctx.pick(500, 1500), steps + 5, ctx.seed * 1000 + k,
                            consts={"Steps": str(steps)})
        jobs = [dict(seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, exe=exe) for i, h in enumerate(hs)]
        ctx.conformance(dart.runner, jobs, "TracePdcDart", label="routing")
        if ctx.quick or ctx.left(0, 420) < 0:
            return


# the recorded findings: what is put in and taken out, the search, and the answer that would be right
FINDINGS = [("ends-taken-for-names", [("add", "starttime", "5")], "time=5", []),
            ("shared-ends-removed", [("add", "time", "5"), ("add", "starttime", "5"), ("del", "starttime", "5")], "time=5", [1])]


def finding(job):
    def body(r):
        for op, k, v in job["ops"]:
            a = r(0, "dins" if op == "add" else "ddel", 3, 1, k, v, 1)
            r.log(op, k=e2e.codes(k), v=e2e.codes(v), o=1, ok=a["rc"] >= 0)
        a = r(0, "dq", 3, 1, job["query"])
        k, v = job["query"].split("=")
        r.log("ask", kp=e2e.codes(k), vp=e2e.codes(v), n=a["n"], ids=[int(x) for x in a["ids"]])
    return e2e.job(e2e.Run(1, 1, built=job["built"]), body)


def search(ctx):
    cut = e2e.build()
    whole = e2e.build(off=("PDC_DART_SFX_TREE",), name="whole")
    ctx.model_check("MCPdcIndex", "MCPdcIndex.cfg" if ctx.quick else "MCPdcIndexBig.cfg", timeout=300)
    ctx.model_check("MCPdcIndex", "MCPdcIndexWhole.cfg")
    ctx.model_check("MCPdcIndex", "MCPdcIndexOverlap.cfg", timeout=300)
    for key, ops, query, right in FINDINGS:
        j = dict(ops=ops, query=query, built=cut)
        r = finding(j)
        if not r.get("crash") and r["events"][-1]["ids"] != right and ctx.known_finding(key):
            continue
        # with whole names nothing is let through
        ctx.conformance(finding, [j], "TracePdcIndex", "TracePdcIndexWhole.cfg", label="recorded finding " + key)
    asan = None if ctx.quick else e2e.build(san="address,undefined", name="asan")
    clean = {"ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0"}
    k = 0
    while not ctx.violations:
        k += 1
        for built, cfg, n, par in ((cut, None, ctx.pick(150, 300), 0), (whole, "TracePdcIndexWhole.cfg", ctx.pick(50, 100), 0),
                                   (cut, None, ctx.pick(60, 150), 1), (whole, "TracePdcIndexWhole.cfg", ctx.pick(60, 150), 1),
                                   (asan, None, 0 if ctx.quick else 60, 0), (asan, None, 0 if ctx.quick else 60, 1)):
            if not n:
                continue
            s = ctx.seed * 1000 + k + 500 * par
            steps = ctx.pick(50, ctx.rng.choice([50, 50, 150])) * (2 if par else 1)
            hs = tlc.behaviours("MCPdcIndex", "GenPdcIndex.cfg", n, steps + 5, s, consts={"Steps": str(steps)})
            jobs = [dict(seed=s * 100000 + i, hist=h, built=built, env=clean if built is asan else None, odd=i % 4, par=par,
                         again=25 if par else 3) for i, h in enumerate(hs)]
            ctx.conformance(mdindex.runner, jobs, "TracePdcIndex", cfg,
                            label=("whole names" if built is whole else "sanitized" if built is asan else "ends") + (", together" if par else ""))
        if ctx.quick or ctx.left(0, 420) < 0:
            return


CHECKS = {"X01": search, "X02": routing}
