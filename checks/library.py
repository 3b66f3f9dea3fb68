"""Checks of the parts everything else is built on: regions, text, filters, threads and files."""
import bloom
import files
import pool
import region
import text
import tlc


def simple(ctx, mod, spec, exe, quick, steps=60, gen=None):
    k = 0
    while not ctx.violations:
        k += 1
        hs = tlc.behaviours(gen or "MC" + spec, "Gen%s.cfg" % spec, ctx.pick(quick, 3 * quick), steps + 5, ctx.seed * 1000 + k,
                            consts={"Steps": str(steps)})
        jobs = [dict(seed=(ctx.seed * 1000 + k) * 100000 + i, hist=h, exe=exe) for i, h in enumerate(hs)]
        ctx.conformance(mod.runner, jobs, "Trace" + spec, label=spec)
        if ctx.quick or ctx.left(0, 420) < 0:
            return


def regions(ctx):
    exe = region.build()
    ctx.model_check("MCPdcRegion", "MCPdcRegion.cfg")
    simple(ctx, region, "PdcRegion", exe, 1200)


def texts(ctx):
    exe = text.build()
    ctx.model_check("MCPdcText", "MCPdcText.cfg")
    simple(ctx, text, "PdcText", exe, 1500)


def filters(ctx):
    exe = bloom.build()
    ctx.model_check("PdcBloomImpl", "PdcBloomImpl.cfg")
    ctx.model_check("MCPdcBloom", "MCPdcBloom.cfg")
    simple(ctx, bloom, "PdcBloom", exe, 1200)


def pools(ctx):
    exe = pool.build()
    ctx.model_check("PdcPoolImpl", "PdcPoolImpl.cfg")
    ctx.model_check("MCPdcPool", "MCPdcPool.cfg")
    simple(ctx, pool, "PdcPool", exe, 12000, steps=16, gen="GenPdcPool")


def plain_files(ctx):
    exe = files.build()
    ctx.model_check("MCPdcFile", "MCPdcFile.cfg")
    simple(ctx, files, "PdcFile", exe, 1000)


CHECKS = {"L01": regions, "L02": texts, "L03": filters, "L04": pools, "L05": plain_files}
