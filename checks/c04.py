import json, os, re
import vlib

def run(ctx):
    exe = vlib.build(["c04"])["c04"]
    # 1. the design, exhaustively
    ctx.model("MCMachine", "MCMachine", "every program of <=3 lines (31 line forms): marks are transparent and exact")
    ctx.model("MCMachine", "MCMachine2", "every pair of 1-line programs: identity is sound")
    # 2. spec -> implementation
    r = vlib.tlc("MCMachine", "MCMachineEmit", workers=1, timeout=300)
    if not r.ok:
        raise vlib.CheckError("MCMachineEmit: " + r.tail())
    f = ctx.path("programs.txt")
    n = 0
    with open(f, "w") as out:
        for m in re.finditer(r'"@@(\{.*\})"', r.out):
            p = json.loads(m.group(1).replace('\\"', '"'))
            row = [len(p["lines"])]
            for l in p["lines"]:
                row += [l["i"], l["d"], l["o"][0][0], l["o"][0][1], l["o"][1][0], l["o"][1][1]]
            row += [p["cst"][0]] + p["res"]
            out.write(" ".join(map(str, row)) + "\n")
            n += 1
    if n < 500:
        raise vlib.CheckError("only %d programs emitted" % n)
    d = vlib.drive([exe, "replay", f])
    m = re.search(r"REPLAYED (\d+) BAD (\d+)", d.out)
    if d.died or not m:
        if vlib.drive([exe, "replay", f]).died:
            ctx.violation("replay died: " + d.why(), ctx.keep(f))
        else:
            raise vlib.CheckError("replay: " + d.why())
    elif int(m.group(2)):
        rp = ctx.keep(f)
        open(rp + ".out", "w").write(d.out)
        ctx.violation("replayed programs disagree: " + d.out.splitlines()[0], rp + ".out")
    ctx.cov["programs_replayed_from_spec"] = n
    # 3. implementation -> spec
    k = 32 if ctx.thorough else 8
    worlds, steps = (40, 120) if ctx.thorough else (22, 90)
    files = []
    for i in range(k):
        o = ctx.path("t%d.ndjson" % i)
        if ctx.record([exe, "record", vlib.split_seed(ctx.seed, i), worlds, steps], o):
            files.append(o)
    if files:
        ctx.sample_trace(files[0])
    ctx.validate("MachineTrace", files, what="program history")
    ctx.assumptions += ["instructions range over an exact integer-valued set (modular arithmetic, NaN, infinities)"]
