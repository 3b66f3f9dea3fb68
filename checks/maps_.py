"""Checks decided with PdcMap: mapped buffers and region locks."""
import random

import e2e
import maps
import tlc


def jobs_of(ctx, profile, n, k, steps=60, variant=None):
    ncl = {"map": [1, 2, 2], "lock": [2, 3, 4]}[profile][k % 3]
    consts = {"Profile": '"%s"' % profile, "Steps": str(steps), "Clients": "{%s}" % ", ".join(str(c) for c in range(ncl))}
    hs = tlc.behaviours("MCPdcMap", "GenPdcMap.cfg", n, steps + 5, ctx.seed * 1000 + k, consts=consts)
    R = random.Random("%s/%s/%s/%d" % (ctx.prop, ctx.seed, profile, k))
    return [dict(variant=variant, seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, nserv=R.choice([1, 1, 2, 3]), ncl=ncl, shuffle=R.random() < .2)
            for i, h in enumerate(hs)]


def rounds(ctx, profile, quick=400, budget=420):
    e2e.build()
    ctx.model_check("MCPdcMap", "MCPdcMap.cfg")
    k = turn = 0
    while not ctx.violations:
        v = None if ctx.quick else e2e.turn(turn, ("asan", "nocache"))
        for _ in range(3):
            k += 1
            ctx.conformance(maps.runner, jobs_of(ctx, profile, ctx.pick(quick, 2 * quick), k, variant=v), "TracePdcMap",
                            label=profile + (" " + v if v else ""))
            if ctx.violations:
                return
        turn += 1
        if ctx.quick or ctx.left(0, budget) < 0:
            return


def D03(ctx):
    rounds(ctx, "map")


def D04(ctx):
    rounds(ctx, "lock")


CHECKS = {"D03": D03, "D04": D04}
