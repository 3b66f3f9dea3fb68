"""Checks decided with PdcMeta: the name space, its queries, handles, tags and restarts."""
import os
import random

import e2e
import meta
import tlc

SERVERS = [1, 1, 2, 3, 5]


def jobs_of(ctx, profile, n, k, crowd=0, par=0, variant=None):
    steps = ctx.rng.choice([40, 40, 60]) if not ctx.quick else 40
    hs = tlc.behaviours("MCPdcMeta", "GenPdcMeta.cfg", n, steps + 5, ctx.seed * 1000 + k,
                        consts=dict({"Profile": '"%s"' % profile, "Steps": str(steps)},
                                    **({"TSs": "{0, 1, 2, 3, 5}"} if profile == "query" else {}),
                                    **({"Clients": "{%s}" % ", ".join(map(str, range(par)))} if par else {})))
    R = random.Random("%s/%s/%s/%d" % (ctx.prop, ctx.seed, profile, k))
    out = []
    for i, h in enumerate(hs):
        out.append(dict(crash=profile == "crash", seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, nserv=R.choice([1, 1, 1, 2, 3] if par else SERVERS), ncl=par or 2, par=bool(par), again=25 if par else 3, variant=variant, odd=R.random() < .5,
                        shuffle=R.random() < (.5 if par else .2),
                        crowd=R.randint(100, 180) if crowd else -R.randint(2, 6) if profile in ("kvq", "restart") and not par and R.random() < .4
                        else 0))
    return out


def rounds(ctx, profiles, quick=1500, budget=420, crowd=0):
    """quick: one round; thorough: rounds with new seeds until the budget is spent"""
    e2e.build()
    ctx.model_check("MCPdcMeta", "MCPdcMeta.cfg")
    k = turn = 0
    while not ctx.violations:
        v = None if ctx.quick else e2e.turn(turn, ("asan",))
        for p in profiles:
            k += 1
            ctx.conformance(meta.runner, jobs_of(ctx, p, ctx.pick(quick, 1500), k, variant=v), "TracePdcMeta",
                            label=p + (" " + v if v else ""))
            if ctx.violations:
                return
        turn += 1
        if crowd:
            k += 1
            ctx.conformance(meta.runner, jobs_of(ctx, "name", ctx.pick(crowd, 100), k, crowd=1), "TracePdcMeta", label="crowd")
        if ctx.quick or ctx.left(0, budget) < 0:
            return


def collide(job):
    """two container names with the same hash, created and told apart?"""
    def body(r):
        r(0, "prop", "cp", "cont")
        ids = e2e.Ids()
        for s, n in (("c1", job["a"]), ("c2", job["b"])):
            a = r(0, "ccreate", s, n, "cp")
            r.log("ccreate", h=[0, s], name=n, id=ids(a["meta"]))
    return e2e.job(e2e.Run(job["nserv"], 1), body)


def N01(ctx):
    e2e.build()
    j = dict(a="Ab", b="BA", nserv=1)
    r = collide(j)
    if not r.get("crash") and r["events"][1]["id"] == r["events"][2]["id"] and not ctx.known_finding("container-hash-collision"):
        ctx.conformance(collide, [j], "TracePdcMeta", label="colliding names")
    rounds(ctx, ["name"], crowd=30)


def N02(ctx):
    rounds(ctx, ["attr"])


def N03(ctx):
    rounds(ctx, ["handle"])


def N04(ctx):
    e2e.build(**e2e.VARIANTS["asan"])
    ctx.model_check("MCPdcMeta", "MCPdcMeta.cfg")
    k = 0
    while True:
        for p in ("name", "query", "tags", "kvq", "handle"):
            k += 1
            c = 2 + k % 3
            ctx.conformance(meta.runner, jobs_of(ctx, p, ctx.pick(250, 1000), k, par=c, variant="asan"), "TracePdcMeta",
                            label="%s, %d clients at a time" % (p, c))
            if ctx.violations:
                return
        if ctx.quick or ctx.left(0, 420) < 0:
            return


def T01(ctx):
    rounds(ctx, ["tags"])


def T02(ctx):
    rounds(ctx, ["kvq"])


def T03(ctx):
    rounds(ctx, ["query"], crowd=10)


def P03(ctx):
    ctx.model_check("MCPdcMeta", "MCPdcMetaCrash.cfg")
    rounds(ctx, ["crash"], quick=1200)


def P01(ctx):
    rounds(ctx, ["restart"], quick=900)


CHECKS = {"N01": N01, "N02": N02, "N03": N03, "N04": N04, "T01": T01, "T02": T02, "T03": T03, "P01": P01, "P03": P03}
