import json, random
LV = ["80", "110", "128", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "U8"]

def run(ctx):
    exe = ctx.build("c07")
    (cases, _, _, _) = ctx.par(
        lambda: ctx.enumerate("MessageCases", "MessageCases.cfg"),
        lambda: ctx.model("Message", "MessageMC.cfg"),
        lambda: ctx.model("MessageFull", "MessageFull.cfg"),
        lambda: ctx.model("MessageFull", "MessageBad.cfg", expect_violation="Invariant BadRoundTrip is violated"))
    reps = ctx.pick(1, 11)
    work = list(cases)
    random.Random(ctx.seed).shuffle(work)
    chunks = ctx.pick(4, 8)
    def one(i):
        f = ctx.path("cases_%d.ndjson" % i)
        with open(f, "w") as h:
            for r in range(reps):
                for c in work[i::chunks]:
                    h.write(json.dumps(c) + "\n")
        # every chunk starts the rotation of levels at another level, so that
        # over the chunks every level meets every kind of case
        lv = LV[(3 * i) % len(LV):] + LV[:(3 * i) % len(LV)]
        lv = lv if not ctx.quick else lv[:6]
        t = ctx.drive(exe, str(i), [f] + lv)
        ctx.validate("MessageTrace", "MessageTrace.cfg", t, label="message cases %d" % i)
        return t
    ts = ctx.par(*[(lambda i=i: one(i)) for i in range(chunks)])
    ctx.sample(ts[0], 4)
    ctx.extra["cases"] = len(cases) * reps
