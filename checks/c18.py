import shutil, vlib

def run(ctx):
    exe = vlib.build(["c18"])["c18"]
    ctx.model("MCStats", "MCStats2" if ctx.thorough else None,
              "the walk of every small graph, cyclic ones included, one vertex at a time")
    ctx.model("MCExec", "MCExec2" if ctx.thorough else None,
              "series of inferences, counted by the graph and kept by the engine")
    k = 32 if ctx.thorough else 8
    worlds, steps = (60, 80) if ctx.thorough else (24, 50)
    jobs = [([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], ctx.path("t%d.ndjson" % i)) for i in range(k)]
    files = ctx.record_all(jobs)
    for _, o in jobs:
        shutil.rmtree(o + ".dir", ignore_errors=True)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("StatsTrace", files, what="analyses of policies and of executions")
