from props.c01 import write_programs
LV = ["80", "110", "128", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "U8"]

def run(ctx):
    exe = ctx.build("c08")
    n = ctx.pick(24, 160)
    (progs, _, _, _) = ctx.par(
        lambda: ctx.generate("LinearGen", "LinearGen.cfg", n, 16),
        lambda: ctx.model("Linear", "LinearMC.cfg"),
        lambda: ctx.model("Linear", "LinearMC3.cfg"),
        lambda: ctx.model("Linear", "LinearBad.cfg", expect_violation="Invariant Homomorphic is violated"))
    chunks = ctx.pick(4, 8)
    jobs = [[] for _ in range(chunks)]
    for i, p in enumerate(progs):
        jobs[i % chunks].append({"level": LV[i % len(LV)], "ops": p})
    def one(i):
        f = ctx.path("prog_%d.ndjson" % i)
        write_programs(f, jobs[i])
        t = ctx.drive(exe, str(i), [f])
        ctx.validate("LinearTrace", "LinearTrace.cfg", t, label="linear programs %d" % i)
        return t
    ts = ctx.par(*[(lambda i=i: one(i)) for i in range(chunks)])
    ctx.sample(ts[0], 1)
    ctx.extra["programs"] = len(progs)
