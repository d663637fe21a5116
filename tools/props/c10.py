from props.c01 import write_programs

def run(ctx):
    exe = ctx.build("c10")
    k = ctx.pick(1, 8)
    groups = {"a": (["128", "80", "U2"], 8), "b": (["U1", "128", "U3", "110"], 6), "c": (["U2", "110", "U1"], 8),
              "d": (["80", "110", "128", "U1", "U2", "U3", "U4"], 3), "e": (["U3", "U2", "128"], 6),
              "h": (["U4", "128", "U2"], 4)}
    if not ctx.quick:
        groups["f"] = (["U5", "U2", "128"], 2)
        groups["g"] = (["U4", "U3", "U5", "80"], 2)
    def gen(i, g):
        lv, n = groups[g]
        nox = lv.index("U1") + 1 if "U1" in lv else 0
        return ctx.generate("LevelGen", "LevelGen.cfg", n * k, 60, seed_off=i, env={"LEVELS": str(len(lv)), "NOXOR": str(nox)}, mem="1g")
    res = ctx.par(*[(lambda i=i, g=g: gen(i, g)) for i, g in enumerate(groups)],
                  lambda: ctx.model("LevelSwitch", "LevelSwitchMC.cfg", mem="1g"),
                  lambda: ctx.model("LevelSwitch", "LevelSwitchMC2.cfg", mem="1g"),
                  *[(lambda i=i: ctx.model("LevelSwitch", "LevelSwitchBad%d.cfg" % i, expect_violation="Invariant Fits is violated", mem="1g")) for i in (1, 2, 3, 4)])
    def one(g, progs):
        f = ctx.path("prog_%s.ndjson" % g)
        write_programs(f, [{"levels": groups[g][0], "ops": p} for p in progs])
        return ctx.drive(exe, g, [f])
    traces = ctx.par(*[(lambda g=g, r=r: one(g, r)) for g, r in zip(groups, res)])
    whole = ctx.concat(traces, "all")
    ctx.validate("LevelTrace", "LevelTrace.cfg", whole)
    ctx.sample(whole, 4, skip=3)
    ctx.extra["histories"] = {"/".join(v[0]): v[1] * k for v in groups.values()}
