from props.c01 import write_programs

def run(ctx):
    exe = ctx.build("c16")
    depth = ctx.pick(6, 8)
    n = ctx.pick(48, 400)
    def design():
        ctx.model("Bits", "BitsMC.cfg")
        if not ctx.quick:
            ctx.model("Bits", "BitsMC2.cfg")
        for i, inv in ((1, "Invariant RoundTrip is violated"), (2, "Invariant RoundTrip is violated"), (3, "Invariant Partial is violated")):
            ctx.model("Bits", "BitsBad%d.cfg" % i, expect_violation=inv)
    cases, progs, _ = ctx.par(
        lambda: ctx.enumerate("BitsCases", "BitsCases.cfg", env={"FULL": ctx.pick("0", "1")}),
        lambda: ctx.generate("BitsGen", "BitsGen.cfg", n, 4 * depth + 8, env={"DEPTH": str(depth), "MAXMUL": "4"}),
        design)
    f = ctx.path("cases.ndjson")
    write_programs(f, cases)
    mix = ctx.pick(["U2", "80", "128", "U2", "80", "128", "U2", "80"], ["80", "128", "110", "U2", "80", "128", "U3", "U4"])
    jobs = [[] for _ in mix]
    for i, p in enumerate(progs):
        jobs[i % len(mix)].append(p)
    def pure():
        t = ctx.drive(exe, "cases", ["cases", f], env={"STEP16": ctx.pick("29", "1")})
        ctx.validate("BitsTrace", "BitsTrace.cfg", t, label="bit conversions and encryptions")
        return t
    def one(i):
        g = ctx.path("prog_%d.ndjson" % i)
        write_programs(g, jobs[i])
        t = ctx.drive(exe, "w%d_%s" % (i, mix[i]), ["words", mix[i], g])
        ctx.validate("BitsTrace", "BitsTrace.cfg", t, label="word programs at level " + mix[i])
        return t
    ts = ctx.par(pure, *[(lambda i=i: one(i)) for i in range(len(mix))])
    ctx.sample(ts[0], 1)
    ctx.sample(ts[1], 2, skip=2)
    ctx.extra["word_programs"] = len(progs)
    ctx.extra["conversion_cases"] = len(cases)
