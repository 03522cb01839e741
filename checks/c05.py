import vlib

def run(ctx):
    exe = vlib.build(["c05"])["c05"]
    k = 32 if ctx.thorough else 8
    worlds, steps = (120, 60) if ctx.thorough else (45, 45)
    ctx.model("MCProgMut", None, "every mutation sequence on programs of <=2 lines (2 registers, 1 constant, 3 instructions, 2 sources)")
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("ProgMutTrace", files, what="mutation history")
