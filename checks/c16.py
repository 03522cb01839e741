import shutil, vlib

def run(ctx):
    exe = vlib.build(["c16"])["c16"]
    ctx.model("MCCodeGen", "MCCodeGen2" if ctx.thorough else None,
              "both generated evaluation schemes on a family of graphs and every bid assignment")
    k = 32 if ctx.thorough else 8
    worlds, steps = (60, 60) if ctx.thorough else (24, 20)
    jobs = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        jobs.append(([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o))
    files = ctx.record_all(jobs)
    for _, o in jobs:
        shutil.rmtree(o + ".dir", ignore_errors=True)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("CodeGenTrace", files, what="generated C programs and their calls")
