ALL = ["80", "110", "128", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "U8"]

def run(ctx):
    exe = ctx.build("c15")
    def design():
        ctx.model("RingOps", "RingOpsOne.cfg", workers=2)
        ctx.model("RingOps", ctx.pick("RingOpsTwo.cfg", "RingOpsTwoT.cfg"), workers=2)
        ctx.model("RingOps", "RingOpsRot.cfg", workers=2)
        if not ctx.quick:
            ctx.model("RingOps", "RingOpsOneT.cfg", workers=2)
            ctx.model("RingOps", "RingOpsRotT.cfg", workers=2)
        for i, inv in ((1, "Invariant Extraction is violated"), (2, "The invariant of Digits is equal to FALSE"), (3, "Invariant External is violated"),
                       (4, "Invariant Selection is violated"), (5, "Invariant Rotation is violated")):
            ctx.model("RingOps", "RingOpsBad%d.cfg" % i, expect_violation=inv)
    f = ctx.pool.submit(design)
    # extraction, external product, selection, rotation repetitions
    def one(lv, mode, big):
        reps = ctx.pick((2, 8, 6, 11), (6, 40, 36, 66)) if big else ctx.pick((2, 4, 4, 3), (4, 20, 18, 33))
        t = ctx.drive(exe, "%s_%s" % (lv, mode), [lv, mode] + list(reps))
        ctx.validate("RingOpsTrace", "RingOpsTrace.cfg", t, label="ring operations, level %s, %s keys" % (lv, mode))
        return t
    jobs = [(lv, "noiseless", i < 4 or i == 7) for i, lv in enumerate(ALL)] + [(lv, "noisy", i < 3) for i, lv in enumerate(ctx.pick(["80", "128", "U1", "U4"], ALL))]
    # eight at a time
    ts = []
    for k in range(0, len(jobs), 8):
        ts += ctx.par(*[(lambda j=j: one(*j)) for j in jobs[k:k + 8]])
    f.result()
    ctx.extra["levels"] = ALL
    ctx.sample(ts[3], 1, skip=8)
    ctx.assumptions += ["levels U5-U8: the gadget offset is taken from its definition instead of a generated cloud key (C09 checks generated ones)"]
