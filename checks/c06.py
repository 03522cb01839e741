import vlib

def run(ctx):
    exe = vlib.build(["c06"])["c06"]
    ctx.model("MCArchive", "MCArchive2" if ctx.thorough else "MCArchive",
              "the library's structures refine the bounded FIFO with snapshots")
    k = 32 if ctx.thorough else 8
    worlds, steps = (80, 120) if ctx.thorough else (25, 100)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "direct", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("ArchiveTrace", files, what="archive history")
