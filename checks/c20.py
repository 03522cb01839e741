import vlib

def run(ctx):
    exe = vlib.build(["c20"])["c20"]
    ctx.model("MCParams", "MCParams", "sequences of assignments, writes, edits and loads, one member read at a time")
    if ctx.thorough:
        ctx.model("MCParams", "MCParams2", "the same with two files, longer")
    k = 32 if ctx.thorough else 8
    n, steps = (120, 60) if ctx.thorough else (25, 60)
    cmds = [([exe, "record", vlib.split_seed(ctx.seed, i), n, steps], ctx.path("t%d.ndjson" % i)) for i in range(k)]
    files = ctx.record_all(cmds)
    if files:
        ctx.sample_trace(files[0])
    ctx.assumptions.append("each parameter is named at most once, at its documented place, with a value of its type; reals are finite")
    ctx.validate("ParamsTrace", files, what="parameter files written, made by hand, cut short and loaded")
