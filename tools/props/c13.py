def run(ctx):
    exe = ctx.build("c13")
    # level, scale, number of concurrent encryptions; every level in two processes
    jobs = [("128", 4, 1200000), ("80", 4, 1200000), ("U2", 3, 1200000), ("110", 2, 8000), ("U1", 2, 8000), ("U3", 2, 8000), ("U4", 1, 8000)]
    if not ctx.quick:
        jobs = [(lv, 8, 4000000 if lv in ("128", "80", "U2") else 400000) for lv in ("128", "80", "110", "U1", "U2", "U3", "U4")] + [("U5", 2, 20000), ("U7", 2, 20000)]

    def one(j, i, many):
        return ctx.drive(exe, "%s_%d" % (j[0], i), [j[0], j[1] if i == 0 else 1, many])
    todo = [(lambda j=j: one(j, 0, j[2])) for j in jobs] + [(lambda j=j: one((j[0], 1), 1, 800)) for j in jobs[:3]]
    traces, step = [], ctx.pick(9, 4)
    for i in range(0, len(todo), step):
        traces += ctx.par(*todo[i:i + step])
    whole = ctx.concat(traces, "all")
    ctx.par(lambda: ctx.validate("FreshTrace", "FreshTrace.cfg", whole),
            lambda: ctx.model("Fresh", "FreshMC.cfg", mem="1g"), lambda: ctx.model("Fresh", "FreshMC2.cfg", mem="1g"),
            *[(lambda i=i: ctx.model("Fresh", "FreshBad%d.cfg" % i, expect_violation="Invariant Distinct is violated", mem="1g")) for i in (1, 2, 3)])
    ctx.sample(whole, 2, skip=1)
    ctx.extra["levels"] = [{"level": j[0], "scale": j[1], "concurrent_encryptions": j[2]} for j in jobs]
