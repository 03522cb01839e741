import vlib

def run(ctx):
    exe = vlib.build(["c09"])["c09"]
    ctx.model("MCRepro", "MCRepro2" if ctx.thorough else "MCRepro",
              "observations are a function of (seed, generation) whatever is interleaved")
    k = 24 if ctx.thorough else 8
    n, gens = (24, 7) if ctx.thorough else (7, 5)
    files = []
    for i in range(k):
        parts = []
        # the same trainings in two processes, differently laid out in memory
        for h in (1, 2):
            o = ctx.path("r%d_%d.ndjson" % (i, h))
            if ctx.record([exe, "repro", vlib.split_seed(ctx.seed, 100 + i), n, gens, h, "-"], o):
                parts.append(o)
        if len(parts) == 2:
            both = ctx.path("r%d.ndjson" % i)
            with open(both, "w") as f:
                for h, p in enumerate(parts):
                    for line in open(p):
                        f.write(line.replace('"run":', '"run":%d00' % (h + 1), 1))
            files.append(both)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("AgentTrace", files, what="repeated and re-initialised trainings")
