from props.c01 import write_programs
LV = ["U2", "128", "U4", "U1", "U5", "80", "U3", "110", "U6", "U7", "U8"]

def run(ctx):
    exe = ctx.build("c06")
    (cases, hists, *_) = ctx.par(
        lambda: ctx.enumerate("LutCases", "LutCases.cfg"),
        lambda: ctx.generate("LutHist", "LutHist.cfg", ctx.pick(24, 400), 18),
        lambda: ctx.model("LutGen", "LutGenMC.cfg"),
        lambda: ctx.model("LutFun", "LutFunMC.cfg"),
        lambda: ctx.model("LutFun", ctx.pick("LutFunMCb.cfg", "LutFunT.cfg")),
        lambda: ctx.model("LutFun", "LutFunBad.cfg", expect_violation="Invariant Layout is violated"))
    chunks = 8
    progs = []
    for i, c in enumerate(cases):
        # degree 512, 1024, 2048 in turn; thorough: all three
        for lv in ([LV[(i + ctx.seed) % 3]] if ctx.quick else LV[:3]):
            progs.append({"level": lv, "ops": c})
    for i, h in enumerate(hists):
        progs.append({"level": LV[i % len(LV)], "ops": h})
    def one(i):
        f = ctx.path("prog_%d.ndjson" % i)
        write_programs(f, progs[i::chunks])
        t = ctx.drive(exe, str(i), [f])
        ctx.validate("LutTrace", "LutTrace.cfg", t, label="table histories %d" % i)
        return t
    ts = ctx.par(*[(lambda i=i: one(i)) for i in range(chunks)])
    ctx.sample(ts[0], 3, skip=1)
    ctx.extra["histories"] = len(progs)
