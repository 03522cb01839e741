import vlib

def run(ctx):
    exe = vlib.build(["c08"])["c08"]
    ctx.model("MCData", "MCData3" if ctx.thorough else "MCData", "hash caching, views, clones", timeout=3000, mem="16g")
    k = 32 if ctx.thorough else 8
    files, grid = [], []
    for i in range(8):
        o = ctx.path("g%d.ndjson" % i)
        if ctx.record([exe, "grid", vlib.split_seed(ctx.seed, 500 + i), i, 8], o):
            grid.append(o)
    worlds, steps = (60, 150) if ctx.thorough else (20, 100)
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("DataTrace", grid, what="views of every shape up to 4x4")
    ctx.validate("DataTrace", files, what="data handler history")
