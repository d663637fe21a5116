from props.c01 import write_programs
M = {"U2": 4, "80": 4, "128": 4, "U3": 8, "U4": 8, "U1": 2}

def fit(lv, p):
    """messages of the history reduced to the level's modulus"""
    return {"level": lv, "m": M[lv], "ops": [dict(o, x=o["x"] % M[lv]) if "x" in o else o for o in p]}

def run(ctx):
    exe = ctx.build("c04")
    n = ctx.pick(1, 10)
    one, two, three, pa, pb, *_ = ctx.par(
        lambda: ctx.generate("RingGen", "RingGen1.cfg", 16 * n, 26, mem="1g"),
        lambda: ctx.generate("RingGen", "RingGen.cfg", 8 * n, 26, seed_off=1, mem="1g"),
        lambda: ctx.generate("RingGen", "RingGen3.cfg", 4 * n, 26, seed_off=2, mem="1g"),
        lambda: ctx.generate("PoolGen", "PoolGen.cfg", 20 * n, 42, seed_off=3, mem="1g"),
        lambda: ctx.generate("PoolGen", "PoolGen1.cfg", 20 * n, 42, seed_off=4, mem="1g"),
        lambda: ctx.model("Ring", "RingMC.cfg"), lambda: ctx.model("Ring", ctx.pick("RingMC2.cfg", "RingT2.cfg")),
        lambda: ctx.model("Ring", ctx.pick("RingMC.cfg", "RingT.cfg"), mem="5g", workers=4) if not ctx.quick else None,
        lambda: ctx.model("Ring", "RingBad.cfg", expect_violation="Invariant Handles is violated"))
    jobs = {"a": [fit("U2", p) for p in one[:6 * n]], "b": [fit("U2", p) for p in one[6 * n:12 * n]], "c": [fit("U2", p) for p in two[:6 * n]],
            "d": [fit("U2", p) for p in three[:3 * n]] + [fit("U1", p) for p in one[12 * n:14 * n]],
            "80": [fit("80", p) for p in one[14 * n:15 * n] + two[6 * n:7 * n]],
            "128": [fit("128", p) for p in one[15 * n:16 * n] + two[7 * n:8 * n]],
            "u3": [fit("U3", p) for p in three[3 * n:4 * n]]}
    pools = {"p1": [dict(level="U2", pool=True, ops=p) for p in pa[:10 * n] + pb[:10 * n]],
             "p2": [dict(level="80", pool=True, ops=p) for p in pa[10 * n:16 * n] + pb[10 * n:16 * n]],
             "p3": [dict(level="U4", pool=True, ops=p) for p in pa[16 * n:] + pb[16 * n:]]}
    def drv(name, ps):
        f = ctx.path("prog_%s.ndjson" % name)
        write_programs(f, ps)
        return ctx.drive(exe, name, [f])
    tr = ctx.par(*[(lambda k=k, v=v: drv(k, v)) for k, v in list(jobs.items()) + list(pools.items())])
    a, b = ctx.concat(tr[:len(jobs)], "ring"), ctx.concat(tr[len(jobs):], "pool")
    ctx.par(lambda: ctx.validate("RingTrace", "RingTrace.cfg", a), lambda: ctx.validate("PoolTrace", "PoolTrace.cfg", b))
    ctx.sample(a, 2, skip=4)
    ctx.sample(b, 2, skip=4)
    ctx.extra["histories"] = {k: len(v) for k, v in list(jobs.items()) + list(pools.items())}
