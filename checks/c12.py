import vlib

def run(ctx):
    exe = vlib.build(["c11"])["c11"]
    ctx.model("MCLearn", "MCLearn2" if ctx.thorough else "MCLearn",
              "the training loop refines the records/selection specification")
    files = []
    # every population of up to 4 (5) roots: kinds, scores with ties, number of deletions
    size, parts = (5, 32) if ctx.thorough else (4, 8)
    for i in range(parts):
        o = ctx.path("s%d.ndjson" % i)
        if ctx.record([exe, "select", vlib.split_seed(ctx.seed, 500 + i), size, i * 100 + parts], o):
            files.append(o)
    ctx.validate("LearnTrace", files, what="selection on a small population")
    k = 24 if ctx.thorough else 8
    n, steps = (60, 14) if ctx.thorough else (12, 12)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "train", vlib.split_seed(ctx.seed, 100 + i), n, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("LearnTrace", files, what="training history")
