import vlib

def run(ctx):
    exe = vlib.build(["c06"])["c06"]
    ctx.model("MCArchive", "MCArchive2" if ctx.thorough else "MCArchive",
              "per-program early-exit scan decides novelty")
    k = 32 if ctx.thorough else 8
    direct = ctx.record_all([([exe, "direct", vlib.split_seed(ctx.seed, 100 + i), 60 if ctx.thorough else 15, 120],
                              ctx.path("d%d.ndjson" % i)) for i in range(k)])

    def step(i):
        o = ctx.path("e%d.ndjson" % i)
        return o, ctx.record([exe, "evolve", vlib.split_seed(ctx.seed, 200 + i), 30 if ctx.thorough else 8, 8], o)

    runs = [(o, r) for o, r in vlib.pmap(step, range(k)) if r]
    evolve = [o for o, r in runs]
    # nothing new may exist in a degenerate environment; never finding anything is another matter
    unended = sum("search-unended" in r.out for o, r in runs)
    ctx.cov["searches cut short"] = unended
    if unended * 4 > len(runs):
        ctx.violation("%d of %d populations never found a program with new results" % (unended, len(runs)),
                      next(o for o, r in runs if "search-unended" in r.out))
    if evolve:
        ctx.sample_trace(evolve[0])
    ctx.validate("ArchiveTrace", direct, what="novelty queries")
    ctx.validate("ArchiveTrace", evolve, what="population steps against the archive")
