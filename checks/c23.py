import vlib

def run(ctx):
    exe = vlib.build(["c23"])["c23"]
    ctx.model("MCEnvironments", "MCEnvironments", "environments of up to 2 instructions and sources; 2 lines edited; engines of 2 sources")
    if ctx.thorough:
        ctx.model("MCEnvironments", "MCEnvironments2", "environments of up to 3 instructions and 2 sources; 3 lines edited; engines of 2 sources")
    k = 32 if ctx.thorough else 8
    worlds, steps = (200, 80) if ctx.thorough else (60, 40)
    cmds = [(["record", vlib.split_seed(ctx.seed, i), worlds, steps], "t%d.ndjson" % i) for i in range(k)]
    files = ctx.record_all([([exe] + c, ctx.path(o)) for c, o in cmds])
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("EnvironmentsTrace", files, what="environments, edits of lines and engines")
