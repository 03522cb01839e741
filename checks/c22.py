import vlib

def run(ctx):
    exe = vlib.build(["c22"])["c22"]
    ctx.model("MCRandom", "MCRandom", "3-bit engine, every range of 4-bit integers, signed or not; limb arithmetic")
    ctx.model("MCRandom", "MCRandom2", "5-bit engine, every range of 4-bit integers")
    if ctx.thorough:
        ctx.model("MCRandom", "MCRandom3", "4-bit engine, every range of 6-bit integers")
    k = 32 if ctx.thorough else 8
    worlds, steps = (40, 120) if ctx.thorough else (12, 60)
    cmds = [(["record", vlib.split_seed(ctx.seed, i), worlds, steps], "t%d.ndjson" % i) for i in range(k)]
    files = ctx.record_all([([exe] + c, ctx.path(o)) for c, o in cmds])
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("RandomTrace", files, what="draws of generators")
