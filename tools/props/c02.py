from props.c01 import write_programs

def run(ctx):
    exe, race = ctx.par(lambda: ctx.build("c02"), lambda: ctx.build("c02", race=True))
    n = ctx.pick(2, 12)
    big, small, sweep, *_ = ctx.par(
        lambda: ctx.generate("BatchGen", "BatchGen.cfg", 12 * n, 14),
        lambda: ctx.generate("BatchGen", "BatchGenS.cfg", 16 * n, 11),
        lambda: ctx.enumerate("BatchSweep", "BatchSweep.cfg", env={"SWEEPMAX": ctx.pick("70", "140"), "SWEEPTURN": str(ctx.seed % 6)}),
        lambda: ctx.model("BatchPool", ctx.pick("BatchPoolMC.cfg", "BatchPoolMC3.cfg")),
        lambda: ctx.model("BatchPool", "BatchPoolBad.cfg", expect_violation="Invariant Correct is violated"))
    P = lambda lv, ps: [{"level": lv, "ops": p} for p in ps]
    # (level mix, GOMAXPROCS, race detector)
    jobs = {
        "u2": (P("U2", big[:5 * n]), 8, False), "u2p1": (P("U2", big[5 * n:7 * n]), 1, False), "u2p3": (P("U2", big[7 * n:9 * n]), 3, False),
        "80": (P("80", small[:4 * n]), 4, False), "128": (P("128", small[4 * n:7 * n]), 8, False),
        "u3": (P("U3", small[7 * n:9 * n]), 8, False), "110": (P("110", small[9 * n:11 * n]), 8, False), "u4": (P("U4", small[11 * n:12 * n]), 8, False),
        "race": (P("U2", small[12 * n:13 * n]), 8, True),
    }
    jobs["sweep"] = (P("U2", sweep), 8, False)
    if not ctx.quick:
        for turn in (1, 2, 3):
            more = ctx.enumerate("BatchSweep", "BatchSweep.cfg", env={"SWEEPMAX": "70", "SWEEPTURN": str((ctx.seed + turn) % 6)})
            jobs["sweep%d" % turn] = (P(["80", "128", "U3"][turn - 1], more), [8, 2, 5][turn - 1], False)
        jobs["mix"] = (sum(([{"level": lv, "ops": p}] for lv, p in zip(["U2", "80", "U4", "128", "U3", "U5"] * 9, small[13 * n:15 * n])), []), 8, False)
    def one(name):
        ps, procs, rc = jobs[name]
        f = ctx.path("prog_%s.ndjson" % name)
        write_programs(f, ps)
        return ctx.drive(race if rc else exe, name, [f], env={"GOMAXPROCS": procs})
    traces = ctx.par(*[(lambda nm=nm: one(nm)) for nm in jobs])
    whole = ctx.concat(traces, "all")
    ctx.validate("BatchTrace", "BatchTrace.cfg", whole)
    ctx.sample(whole, 3, skip=3)
    ctx.extra["batches"] = sum(len(o.get("bs", [])) for v in jobs.values() for p in v[0] for o in p["ops"])
    ctx.extra["gates"] = sum(len(b["ps"]) for v in jobs.values() for p in v[0] for o in p["ops"] for b in o.get("bs", []))
