from props.c01 import write_programs


def run(ctx):
    exe = ctx.build("c11")
    levels = ["80", "128", "U2"] + ctx.pick([], ["110", "U1", "U3", "U4"])
    num = ctx.pick(6, 40)
    res = ctx.par(*[(lambda i=i: ctx.generate("ReencGen", "ReencGen.cfg", num, 60, seed_off=i, mem="1g")) for i in range(len(levels))],
                  lambda: ctx.model("Reenc", "ReencMC.cfg", mem="1g"),
                  lambda: ctx.model("Reenc", "ReencMC2.cfg", mem="2g"),
                  lambda: ctx.model("Reenc", "ReencBad1.cfg", expect_violation="Invariant Delegated is violated", mem="1g"),
                  lambda: ctx.model("Reenc", "ReencBad2.cfg", expect_violation="Invariant Moves is violated", mem="1g"))
    # decompositions into few, wide digits: the keys are large, so one history
    # with each is enough
    def wide(k, m, z):
        enc = [{"op": "enc", "d": 1 + i % 3, "p": 1, "b": i % 2, "sh": sh} for i, sh in enumerate((0, 1, 2, 3, 4, 0, 5, 0))]
        ops = [{"op": "rkey", "x": 1, "f": 1, "t": 2, "k": k, "m": m, "z": z}]
        for o in enc:
            ops += [o, {"op": "re", "d": 4, "s": o["d"], "x": 1}]
        return ops
    wides = [(10, "asym", "zero"), (11, "sym", "def")] + ctx.pick([], [(13, "sym", "zero"), (12, "sym", "zero"), (11, "asym", "def")])
    asym = ["80", "110", "128"]

    def one(lv, progs):
        f = ctx.path("prog_%s.ndjson" % lv)
        write_programs(f, [{"level": lv, "ops": p} for p in progs])
        tr = ctx.drive(exe, "hist" + lv, [f])
        ctx.validate("ReencTrace", "ReencTrace.cfg", tr, "level " + lv, mem="3g")
        return tr

    def two(lv):
        n0 = len(ctx.notes)
        tr = ctx.drive(exe, "asym" + lv, ["asym", lv, ctx.pick(400, 4000)])
        ctx.validate("ReencTrace", "ReencTrace.cfg", tr, "default asymmetric delegation, level " + lv, mem="1g")
    def three():
        # one process per key: they are large
        for i, w in enumerate(wides):
            f = ctx.path("wide_%d.ndjson" % i)
            write_programs(f, [{"level": "80", "ops": wide(*w)}])
            tr = ctx.drive(exe, "wide%d" % i, [f])
            ctx.validate("ReencTrace", "ReencTrace.cfg", tr, "wide digits %d" % i, mem="2g")
    out = ctx.par(*[(lambda lv=lv, r=r: one(lv, r)) for lv, r in zip(levels, res)], *[(lambda lv=lv: two(lv)) for lv in asym], three)
    ctx.sample(out[0], 4, skip=4)
    # the trace specification has accepted the amount of noise; the bits it
    # flips are the recorded finding
    wrong = [n for n in ctx.notes if n.startswith("asym ") and ": 0 of" not in n]
    if wrong:
        ctx.known.append("delegating with NewProxyReencryptionKeyAsymmetric and NewPublicKeyLv0 at their default parameters is too noisy (%s)" % "; ".join(wrong))
    ctx.extra["levels"] = levels
    ctx.extra["histories_per_level"] = num
