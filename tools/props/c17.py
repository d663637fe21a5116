from props.c01 import write_programs

def run(ctx):
    exe = ctx.build("c17")
    depth = ctx.pick(60, 120)
    n = ctx.pick(120, 1200)
    def design():
        ctx.model("ParamsMC", "ParamsMC.cfg")
        for i, what in ((1, "Invariant Faithful is violated"), (2, "The invariant of ConsistentAll is equal to FALSE"),
                        (3, "The invariant of ConsistentAll is equal to FALSE"), (4, "The invariant of OutMargin is equal to FALSE")):
            ctx.model("ParamsMC", "ParamsBad%d.cfg" % i, expect_violation=what)
    progs, pairs, _ = ctx.par(
        lambda: ctx.generate("ParamsGen", "ParamsGen.cfg", n, 3 * depth, env={"DEPTH": str(depth)}),
        lambda: ctx.enumerate("ParamsAll", "ParamsAll.cfg"), design)
    k = ctx.pick(3, 8)
    jobs = [("pairs", "pairs", pairs)] + [("hist%d" % i, "hist", progs[i::k]) for i in range(k)]
    lv = ctx.pick(["80", "U2"], ["80", "110", "128", "U1", "U2", "U3", "U4"])
    def one(j):
        f = ctx.path("in_%s.ndjson" % j[0])
        write_programs(f, j[2])
        t = ctx.drive(exe, j[0], [j[1], f])
        ctx.validate("ParamsTrace", "ParamsTrace.cfg", t, label=j[0])
        return t
    def cloud():
        t = ctx.drive(exe, "cloud", ["cloud"] + lv)
        ctx.validate("ParamsTrace", "ParamsTrace.cfg", t, label="cloud key sizes")
        return t
    ts = ctx.par(cloud, *[(lambda j=j: one(j)) for j in jobs])
    ctx.sample(ts[1], 3, skip=4)
    ctx.extra["level_pairs"] = len(pairs)
    ctx.extra["histories"] = len(progs)
    ctx.extra["cloud_key_levels"] = lv
    ctx.assumptions += ["the noise margins are proved on the specification's table, which the recorded parameters must equal"]
