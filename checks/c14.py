import vlib

def run(ctx):
    exe = vlib.build(["c14"])["c14"]
    ctx.model("MCClassif", "MCClassif", "confusion tables, F1, and every selection outcome for 5 roots and 2 classes")
    ctx.model("MCClassif", "MCClassif1", "one class (three experts), three-class tables")
    if ctx.thorough:
        ctx.model("MCClassif", "MCClassif2", "6 roots, longer guess histories")
        ctx.model("MCClassif", "MCClassif3", "one class, three score levels")
    k = 24 if ctx.thorough else 8
    files = []
    for i in range(k):
        for mode, n, steps in [("guess", 10, 150), ("train", 6 if ctx.thorough else 4, 8), ("select", 12, 25)]:
            o = ctx.path("%s%d.ndjson" % (mode, i))
            if ctx.record([exe, mode, vlib.split_seed(ctx.seed, 100 * i + len(mode)), n, steps], o):
                files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("ClassifTrace", files, what="classification")
