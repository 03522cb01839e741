import vlib

def run(ctx):
    exe = vlib.build(["c01"])["c01"]
    ctx.model("MCTPGEdit", "MCTPGEdit", "all edit sequences over 3 vertices, 3 edges")
    ctx.model("MCTPGEdit", "MCTPGEdit2", "all edit sequences over two graphs, 3 vertices, 2 edges, with moves")
    if ctx.thorough:
        ctx.model("MCTPGEdit", "MCTPGEdit3", "all edit sequences over 4 vertices, 3 edges, 2 programs", timeout=850)
    k = 32 if ctx.thorough else 8
    worlds, steps = (30, 400) if ctx.thorough else (10, 250)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("TPGTrace", files, what="edit history")
