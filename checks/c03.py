import vlib

def run(ctx):
    exe = vlib.build(["c03"])["c03"]
    ctx.model("MCInfer", None, "the selection loop on every bid assignment (NaN, -inf, ties) of a family of graphs")
    k = 32 if ctx.thorough else 8
    worlds, steps = (60, 60) if ctx.thorough else (25, 50)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("InferTrace", files, what="inference history")
