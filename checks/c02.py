import vlib

def run(ctx):
    exe = vlib.build(["c02"])["c02"]
    ctx.model("MCTPGMut", "MCTPGMut", "every growth/removal sequence: 2 mutated clones of 2 edges")
    ctx.model("MCTPGMut", "MCTPGMut2", "every mutated clone of up to 3 edges")
    if ctx.thorough:
        ctx.model("MCTPGMut", "MCTPGMut3", "2 mutated clones without removal in between", timeout=800)
    k = 32 if ctx.thorough else 8
    worlds, steps = (24, 40) if ctx.thorough else (9, 30)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("TPGMutTrace", files, what="evolution history")
