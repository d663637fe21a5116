from props.c01 import write_programs
import random

def run(ctx):
    exe = ctx.build("c09")
    cases, *_ = ctx.par(lambda: ctx.enumerate("KeyCases", "KeyCases.cfg", mem="1g"),
        lambda: ctx.model("KeySwitch", "KeySwitchFull.cfg" if ctx.quick else "KeySwitchMC.cfg"),
        lambda: ctx.model("KeySwitch", "KeySwitchMC2.cfg"),
        *[(lambda i=i: ctx.model("KeySwitch", "KeySwitchBad%d.cfg" % i, expect_violation="Invariant Bounded is violated", mem="1g")) for i in (1, 2, 3, 4)])
    if not ctx.quick:
        ctx.model("KeySwitch", "KeySwitchMC3.cfg", workers=6, mem="8g", timeout=1500)
    levels = ["80", "110", "128", "U1", "U2", "U3", "U4"] + ctx.pick([], ["U5", "U6", "U7", "U8"])
    rnd = random.Random(ctx.seed)
    def one(lv):
        big = lv in ("U3", "U4", "U5", "U6", "U7", "U8")
        f = ctx.path("cases_%s.ndjson" % lv)
        write_programs(f, cases if not ctx.quick else rnd.sample(cases, 16))
        rows = ctx.pick(40 if big else 300, 200 if big else 2048)
        full = ctx.pick(1, 12)
        singles = ctx.pick(200, 4096)
        return ctx.drive(exe, lv, [lv, rows, full, singles, f])
    chunks = [levels] if ctx.quick else [levels[:7], levels[7:]]
    for ch in chunks:
        traces = ctx.par(*[(lambda lv=lv: one(lv)) for lv in ch])
        ctx.par(*[(lambda lv=lv, tr=tr: ctx.validate("KeyTrace", "KeyTrace.cfg", tr, "level " + lv, mem="4g" if not ctx.quick else "2g")) for lv, tr in zip(ch, traces)])
    ctx.extra["levels"] = levels
