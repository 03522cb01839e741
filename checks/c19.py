import vlib

def run(ctx):
    exe = vlib.build(["c19"])["c19"]
    ctx.model("MCCycle", "MCCycle", "the search on every graph of 3 teams and an action, one vertex at a time")
    if ctx.thorough:
        ctx.model("MCCycle", "MCCycle2", "the search on every graph of 4 teams")
    k = 32 if ctx.thorough else 8
    trainings, graphs = (6, 1500) if ctx.thorough else (2, 400)
    cmds = [(["record", vlib.split_seed(ctx.seed, i), trainings, graphs], "t%d.ndjson" % i) for i in range(k)]
    shape = 40 if ctx.thorough else 31
    cmds += [(["enum", 0, i, 800 + shape], "e%d.ndjson" % i) for i in range(8)]
    files = ctx.record_all([([exe] + c, ctx.path(o)) for c, o in cmds])
    if files:
        ctx.sample_trace(files[0])
    ctx.cov["exhaustive graphs"] = "all %s" % ("65536 graphs of 4 teams" if ctx.thorough else "4096 graphs of 3 teams and an action")
    ctx.validate("CycleTrace", files, what="verdicts of the cycle detector")
