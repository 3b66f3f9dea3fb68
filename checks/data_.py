"""Checks decided with PdcData: the data of objects and the transfers that move it."""
import random

import data
import e2e
import tlc

SERVERS = [1, 1, 2, 3, 4]


def jobs_of(ctx, profile, n, k, parts=(0, 1, 2, 3), steps=60, variant=None):
    ncl = {"together": [2, 3, 4][k % 3], "clients": 2, "async": 2, "life": [1, 3, 4][k % 3]}.get(profile, 1)
    prof = "async" if profile in ("clients", "together") else profile
    consts = {"Profile": '"%s"' % prof, "Steps": str(steps), "Clients": "{%s}" % ", ".join(str(c) for c in range(ncl))}
    if profile == "life":
        # many objects in the tables of few servers, before and after restarts
        consts.update(ONames="{%s}" % ", ".join('"%s"' % c for c in "ABCDEFGH"), Steps=str(2 * steps), MaxX="120")
    hs = tlc.behaviours("MCPdcData", "GenPdcData.cfg", n, int(consts["Steps"]) + 5, ctx.seed * 1000 + k, consts=consts)
    R = random.Random("%s/%s/%s/%d" % (ctx.prop, ctx.seed, profile, k))
    par = profile == "together"
    return [dict(variant=variant, par=par, again=25 if par else 3, seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, nserv=R.choice(SERVERS), ncl=ncl, shuffle=R.random() < (.5 if par else .2),
                 parts=list(parts) if R.random() < .5 else [R.choice(parts)]) for i, h in enumerate(hs)]


def rounds(ctx, profiles, quick=600, budget=420, **kw):
    e2e.build()
    ctx.model_check("MCPdcData", "MCPdcData.cfg")
    k = turn = 0
    while not ctx.violations:
        v = None if ctx.quick else e2e.turn(turn, ("asan", "nocache"))
        for p in profiles:
            k += 1
            n = quick // 3 if p == "life" else quick
            ctx.conformance(data.runner, jobs_of(ctx, p, ctx.pick(n, 2 * n), k, variant=v, **kw), "TracePdcData",
                            label=p + (" " + v if v else ""))
            if ctx.violations:
                return
        turn += 1
        if ctx.quick or ctx.left(0, budget) < 0:
            return


def D01(ctx):
    rounds(ctx, ["plain", "small", "batch"])


def D02(ctx):
    rounds(ctx, ["async", "close"])


def D05(ctx):
    rounds(ctx, ["together"] * 4, quick=400)


def P02(ctx):
    rounds(ctx, ["restart", "life", "life"])


CHECKS = {"D01": D01, "D02": D02, "D05": D05, "P02": P02}
