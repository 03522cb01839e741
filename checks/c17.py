import vlib

def run(ctx):
    exe = vlib.build(["c17"])["c17"]
    ctx.model("MCCounters", "MCCounters2" if ctx.thorough else None,
              "interleaved inferences counting one event at a time, resets, data changes and pruning")
    k = 32 if ctx.thorough else 8
    worlds, steps = (60, 80) if ctx.thorough else (20, 50)
    files = ctx.record_all([([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], ctx.path("t%d.ndjson" % i))
                            for i in range(k)])
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("CountersTrace", files, what="uses of instrumented graphs")
