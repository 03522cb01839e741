import vlib

def run(ctx):
    exe = vlib.build(["c11"])["c11"]
    ctx.model("MCLearn", "MCLearn2" if ctx.thorough else "MCLearn",
              "the training loop refines the records/selection specification")
    k = 32 if ctx.thorough else 8
    n, steps = (60, 14) if ctx.thorough else (16, 12)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "train", vlib.split_seed(ctx.seed, i), n, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("LearnTrace", files, what="training history")
    files = []
    for i in range(2):
        o = ctx.path("a%d.ndjson" % i)
        if ctx.record([exe, "algebra", vlib.split_seed(ctx.seed, 900 + i), 1, 3000 if ctx.thorough else 800], o):
            files.append(o)
    ctx.validate("LearnTrace", files, what="merges of evaluation results")
