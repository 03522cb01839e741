import json, re, vlib

def orders(ctx, cfg):
    """the completion orders the specification of the workers allows"""
    r = vlib.tlc("MCParEval", cfg, workers=1)
    seen = []
    for line in r.out.splitlines():
        line = line.strip().strip('"')
        if line.startswith("@@"):
            o = json.loads(line[2:])
            if o not in seen:
                seen.append(o)
    p = ctx.path(cfg + ".orders")
    with open(p, "w") as f:
        for o in seen:
            f.write(" ".join(str(x - 1) for x in o) + "\n")
    return p, len(seen)

def run(ctx):
    exe = vlib.build(["c09"])["c09"]
    ctx.model("MCParEval", "MCParEval2" if ctx.thorough else "MCParEval",
              "every interleaving of the workers gives the sequential result and ends")
    k = 24 if ctx.thorough else 8
    n, gens = (8, 5) if ctx.thorough else (4, 4)
    files = []
    for i in range(k):
        o = ctx.path("p%d.ndjson" % i)
        if ctx.record([exe, "par", vlib.split_seed(ctx.seed, 100 + i), n, gens, ctx.seed + i, "-"], o):
            files.append(o)
    for j, cfg in enumerate(["MCParEmit42", "MCParEmit53", "MCParEmit44"]):
        p, count = orders(ctx, cfg)
        ctx.cov["orders_" + cfg] = count
        for i in range(k // 4):
            o = ctx.path("s%d_%d.ndjson" % (j, i))
            if ctx.record([exe, "sched", vlib.split_seed(ctx.seed, 300 + 10 * j + i), max(2, n // 3), gens, i, p], o):
                files.append(o)
    # recordings in which the accesses of the workers to shared objects are monitored too
    # (an unordered access is not a step of the specification, where sharing is under locks)
    exet = vlib.build(["c09"], san="thread", std_flags="-O0 -DNDEBUG")["c09"]
    for i in range(k // 4):
        o = ctx.path("ts%d.ndjson" % i)
        r = vlib.drive([exet, "par", vlib.split_seed(ctx.seed, 700 + i), n, gens, ctx.seed + i, "-", o], timeout=280,
                       env={"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 history_size=4"})
        races = sorted(set(re.findall(r"SUMMARY: ThreadSanitizer: data race (.*)", r.out)))
        if races:
            with open(o, "a") as f:
                for x in races[:20]:
                    f.write(json.dumps({"e": "Race", "where": x[:200]}) + "\n")
        elif r.died:
            vlib.log("monitored recording not usable:", r.why()[:200])
            continue
        files.append(o)
        ctx.cov["monitored_recordings"] = ctx.cov.get("monitored_recordings", 0) + 1
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("AgentTrace", files, what="parallel and sequential trainings")
