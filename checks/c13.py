import vlib

def run(ctx):
    exe = vlib.build(["c13"])["c13"]
    ctx.model("MCTournament", "MCTournament", "champions, opponents and matches over short trainings (2 agents)")
    if ctx.thorough:
        ctx.model("MCTournament", "MCTournament2", "longer trainings")
        ctx.model("MCTournament", "MCTournament3", "3 agents")
    k = 32 if ctx.thorough else 8
    n, gens = (40, 7) if ctx.thorough else (10, 5)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, vlib.split_seed(ctx.seed, 100 + i), n, gens], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("TournamentTrace", files, what="adversarial training")
