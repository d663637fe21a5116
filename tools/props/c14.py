from props.c01 import write_programs
DEG = {4: (10, 40), 5: (4, 16), 6: (3, 8), 7: (2, 4), 8: (2, 4), 9: (2, 4), 10: (4, 12), 11: (2, 6), 12: (0, 2)}

def run(ctx):
    exe = ctx.build("c14")
    depth = ctx.pick(40, 60)
    jobs = []
    def gen(logn):
        num = DEG[logn][0 if ctx.quick else 1]
        if not num:
            return []
        return [{"n": 1 << logn, "ops": p} for p in ctx.generate("NegaGen", "NegaGen.cfg", num, 40 * depth, seed_off=logn,
                                                                 env={"LOGN": str(logn), "DEPTH": str(depth)})]
    def rots(n):
        ks = sorted(x["k"] for x in ctx.enumerate("NegaRots", "NegaRots.cfg", env={"ROTN": str(n)}))
        out = []
        for i in range(0, len(ks), 24):
            ops = [{"op": "load", "d": 1, "kind": ["full", "edge", "digit"][(i // 24) % 3]}]
            for k in ks[i:i + 24]:
                ops += [{"op": o, "d": d, "a": 1, "k": 99, "kk": k} for o, d in (("rotip", 2), ("rotdirect", 3), ("rot", 4))]
            out.append({"n": n, "ops": ops})
        return out
    def design():
        ctx.model("Nega", ctx.pick("NegaMCq.cfg", "NegaMC.cfg"), workers=ctx.pick(2, 4))
        ctx.model("Nega", ctx.pick("NegaMC4q.cfg", "NegaMC4.cfg"), workers=2)
        for i in (1, 2, 3):
            ctx.model("Nega", "NegaBad%d.cfg" % i, expect_violation="Invariant Rotation is violated")
        return []
    rn = ctx.pick([16, 32, 1024], [16, 32, 64, 512, 1024, 2048])
    f = ctx.pool.submit(design)
    for r in ctx.par(*([(lambda x=x: gen(x)) for x in DEG] + [(lambda x=x: rots(x)) for x in rn])):
        jobs += r
    jobs.sort(key=lambda j: -j["n"])
    chunks = ctx.pick(7, 16)
    def one(i):
        fn = ctx.path("prog_%d.ndjson" % i)
        write_programs(fn, jobs[i::chunks])
        t = ctx.drive(exe, str(i), [fn])
        ctx.validate("NegaTrace", "NegaTrace.cfg", t, label="polynomial programs %d" % i)
        return t
    ts = ctx.par(*[(lambda i=i: one(i)) for i in range(chunks)])
    f.result()
    ctx.sample(ts[-1], 2, skip=1)
    ctx.extra["programs"] = len(jobs)
    ctx.extra["degrees"] = sorted({j["n"] for j in jobs})
    ctx.assumptions += ["products of two dense polynomials of degree above 32 are recomputed at eight positions each",
                        "products are judged when the exact result is below 2^46"]
