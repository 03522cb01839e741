import vlib

def run(ctx):
    exe = vlib.build(["c15"])["c15"]
    ctx.model("MCDotFile", "MCDotFile", "every small graph written and read back record by record")
    ctx.model("MCDotFile", "MCDotFile2", "the same with programs of equal content")
    if ctx.thorough:
        ctx.model("MCDotFile", "MCDotFile3", "graphs of 3 edges")
    k = 32 if ctx.thorough else 8
    worlds, steps = (40, 50) if ctx.thorough else (16, 30)
    cmds = []
    for i in range(k):
        cmds.append((["record", vlib.split_seed(ctx.seed, i), worlds, steps], "t%d.ndjson" % i))
    ne = 3
    parts = 8 if ctx.thorough else 16
    for i in range(8):
        cmds.append((["enum", vlib.split_seed(ctx.seed, 500 + i), i, parts * 10 + ne], "e%d.ndjson" % i))
    files = ctx.record_all([([exe] + c, ctx.path(o)) for c, o in cmds])
    if files:
        ctx.sample_trace(files[0])
    ctx.cov["exhaustive saved graphs"] = ("%s of the 8192 graphs of 2 teams, 2 actions, 3 edges, 2 programs, with and without a moved edge"
                                          % ("all" if ctx.thorough else "half"))
    ctx.validate("DotFileTrace", files, what="saving and loading")
