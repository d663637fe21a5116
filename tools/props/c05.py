from props.c01 import write_programs
# largest modulus each level's margin supports
MMAX = {"80": 8, "110": 8, "128": 8, "U1": 2, "U2": 5, "U3": 8, "U4": 16, "U5": 32}

def run(ctx):
    exe = ctx.build("c05")
    n = ctx.pick(1, 10)
    # behaviours per level in the quick tier: about one second of bootstraps per core-second of budget
    per = {"80": 6, "110": 5, "128": 5, "U1": 6, "U2": 12, "U3": 5, "U4": 2, "U5": 1}
    gens = [(lambda lv=lv, i=i: ctx.generate("PBSGen", "PBSGen.cfg", per[lv] * n, 18, seed_off=i, env={"MMAX": str(MMAX[lv])}, mem="1g"))
            for i, lv in enumerate(per)]
    rest = [lambda: ctx.enumerate("PBSCases", "PBSCases3.cfg", mem="1g"),
            lambda: ctx.enumerate("PBSCases", "PBSCases4.cfg", mem="1g"),
            lambda: ctx.model("PBS", "PBSMC.cfg"),
            lambda: ctx.model("PBS", "PBSChain.cfg"),
            lambda: ctx.model("PBS", "PBSBad.cfg", expect_violation="Invariant Correct is violated")]
    if not ctx.quick:
        rest.append(lambda: ctx.model("PBS", "PBSMC2.cfg", workers=4, mem="4g"))
    res = ctx.par(*(gens + rest))
    jobs = {lv: [{"level": lv, "ops": p} for p in r] for lv, r in zip(per, res)}
    c3, c4 = res[len(per)], res[len(per) + 1]
    small = [c for c in c3 if c[0]["m"] <= 2]
    jobs["U2all"] = [{"level": "U2", "ops": c} for c in c3 + (c4[ctx.seed % 16::16] if ctx.quick else c4)]
    jobs["U1all"] = [{"level": "U1", "ops": c} for c in small]
    jobs["80all"] = [{"level": "80", "ops": c} for c in small + c3[ctx.seed % 5::5]]
    if not ctx.quick:
        jobs["128all"] = [{"level": "128", "ops": c} for c in c3]
    def one(name):
        f = ctx.path("prog_%s.ndjson" % name)
        write_programs(f, jobs[name])
        return ctx.drive(exe, name, [f])
    traces = ctx.par(*[(lambda nm=nm: one(nm)) for nm in jobs])
    whole = ctx.concat(traces, "all")
    ctx.validate("PBSTrace", "PBSTrace.cfg", whole)
    ctx.sample(whole, 4, skip=2)
    ctx.extra["histories"] = {k: len(v) for k, v in jobs.items()}
    ctx.extra["bootstraps"] = sum(1 for v in jobs.values() for p in v for o in p["ops"] if o["op"] not in ("enc", "mk", "mkys"))
