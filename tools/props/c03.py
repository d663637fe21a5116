from props.c01 import write_programs

def run(ctx):
    exe = ctx.build("c03")
    k = ctx.pick(24, 200)
    rs = ctx.par(lambda: ctx.enumerate("HeapCases", "HeapCases.cfg", mem="1g"),
                 lambda: ctx.generate("HeapGen", "HeapGen.cfg", k, 40, mem="1g"),
                 lambda: ctx.model("Heap", "HeapMC.cfg", mem="1g"),
                 lambda: ctx.model("Heap", "HeapBad1.cfg", expect_violation="Invariant Frame is violated", mem="1g"),
                 lambda: ctx.model("Heap", "HeapBad2.cfg", expect_violation="Invariant Frame is violated", mem="1g"))
    cases, seqs = rs[0], rs[1]
    newck = [c for c in cases if c["c"] == "newck"]
    rest = [c for c in cases if c["c"] != "newck"]
    jobs = {}
    # every call with every operand pattern, in chunks, in a seed-dependent order
    import random
    random.Random(ctx.seed).shuffle(rest)
    for j in range(4):
        part = rest[j::4]
        jobs["cases%d" % j] = [{"level": "U2", "ops": part[i:i + 40]} for i in range(0, len(part), 40)]
    jobs["newck"] = [{"level": "80", "ops": [c] + rest[7 * i:7 * i + 6]} for i, c in enumerate(newck)]
    for j in range(3):
        jobs["seq%d" % j] = [{"level": ["U2", "80", "U3"][j], "ops": s} for s in seqs[j::3]]
    if not ctx.quick:
        for j, lv in enumerate(("80", "110", "128", "U1", "U4")):
            part = rest[:]
            random.Random(ctx.seed * 100 + j).shuffle(part)
            jobs["all" + lv] = [{"level": lv, "ops": part[i:i + 40]} for i in range(0, len(part), 40)]
    def one(name):
        f = ctx.path("prog_%s.ndjson" % name)
        write_programs(f, jobs[name])
        return ctx.drive(exe, name, [f])
    traces = ctx.par(*[(lambda nm=nm: one(nm)) for nm in jobs])
    whole = ctx.concat(traces, "all")
    ctx.validate("HeapTrace", "HeapTrace.cfg", whole)
    ctx.sample(whole, 3, skip=1)
    ctx.extra["call_patterns"] = len(cases)
    ctx.extra["calls"] = sum(len(p["ops"]) for v in jobs.values() for p in v)
