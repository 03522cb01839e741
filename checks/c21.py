import vlib

def run(ctx):
    exe = vlib.build(["c21"])["c21"]
    ctx.model("MCLogs", "MCLogs", "two generations told to three loggers, any stop, any passing of time")
    ctx.model("MCLogs", "MCLogs2", "with validation, loggers attached in another order")
    if ctx.thorough:
        ctx.model("MCLogs", "MCLogs3", "with validation, more time")
    k = 32 if ctx.thorough else 8
    n, steps = (40, 10) if ctx.thorough else (16, 8)
    cmds = [(["record", vlib.split_seed(ctx.seed, i), n, steps], "t%d.ndjson" % i) for i in range(k)]
    files = ctx.record_all([([exe] + c, ctx.path(o)) for c, o in cmds])
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("LogsTrace", files, what="what loggers were told and printed")
