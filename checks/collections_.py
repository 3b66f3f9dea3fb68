"""Checks decided with PdcColl: the collections that clients and servers are built from."""
import coll
import tlc


def rounds(ctx, what, quick, budget=420, srv=False):
    exes = coll.build()
    ctx.model_check("MCPdcColl", "MCPdcColl_%s.cfg" % what)
    k = 0
    while not ctx.violations:
        k += 1
        steps = 60 if ctx.quick else ctx.rng.choice([60, 60, 150])
        n = ctx.pick(quick, 3 * quick)
        hs = tlc.behaviours("MCPdcColl", "GenPdcColl_%s.cfg" % what, n, steps + 5, ctx.seed * 1000 + k,
                            consts={"Steps": str(steps)})
        jobs = [dict(seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, what=what, exe=exes[0]) for i, h in enumerate(hs)]
        if srv:
            for j in jobs[::4]:
                j.update(srv="srv", exe=exes[1])
            for j in jobs[1::4]:
                j.update(srv="htab", exe=exes[2])
        ctx.conformance(coll.runner, jobs, "TracePdcColl", label=what)
        if ctx.quick or ctx.left(0, budget) < 0:
            return


def compare(ctx):
    exes = coll.build()
    ctx.model_check("MCPdcColl", "MCPdcColl_art.cfg")
    k = 0
    while not ctx.violations:
        k += 1
        jobs = [dict(seed=ctx.seed * 10 ** 6 + k * 10 ** 4 + i, n=500, exe=exes[0]) for i in range(ctx.pick(32, 96))]
        ctx.conformance(coll.cmp_runner, jobs, "TracePdcColl", label="compare")
        if ctx.quick or ctx.left(0, 240) < 0:
            return


CHECKS = {
    "K01": lambda c: rounds(c, "hash", 240, srv=True),
    "K02": lambda c: rounds(c, "set", 240),
    "K03": lambda c: rounds(c, "art", 240),
    "K04": lambda c: rounds(c, "seq", 240),
    "K05": compare,
}
