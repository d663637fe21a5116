from props.c01 import write_programs
MMAX = {"80": 8, "110": 8, "128": 8, "U1": 2, "U2": 4, "U3": 8, "U4": 16, "U5": 32}

def run(ctx):
    exe = ctx.build("c18")
    depth = 24
    # level: (keys, gate programs, programmable bootstrap programs)
    plan = ctx.pick({"80": (6, 36, 12), "128": (4, 20, 8), "U1": (4, 20, 8), "U2": (6, 60, 48), "U3": (4, 16, 24), "U4": (2, 4, 14), "110": (4, 20, 8)},
                    {"80": (10, 200, 80), "110": (10, 160, 60), "128": (10, 160, 60), "U1": (10, 160, 60), "U2": (12, 320, 240), "U3": (8, 100, 140), "U4": (6, 40, 80), "U5": (2, 8, 40)})
    def design():
        ctx.model("Noise", "NoiseMC.cfg")
        for i in (1, 2, 3):
            ctx.model("Noise", "NoiseBad%d.cfg" % i, expect_violation="Invariant Refreshed is violated")
        ctx.model("Noise", "NoiseBad4.cfg", expect_violation="Invariant Decodable is violated")
    fd = ctx.pool.submit(design)
    def one(i, lv):
        k, a, b = plan[lv]
        ps = []
        if a:
            ps += ctx.generate("NoiseGen", "NoiseGen.cfg", a, 3 * depth, seed_off=2 * i, env={"DEPTH": str(depth), "MMAX": "0"})
        if b:
            ps += ctx.generate("NoiseGen", "NoiseGen.cfg", b, 3 * depth, seed_off=2 * i + 1, env={"DEPTH": str(depth), "MMAX": str(MMAX[lv])})
        f = ctx.path("prog_%s.ndjson" % lv)
        write_programs(f, ps)
        t = ctx.drive(exe, lv, [lv, k, f])
        ctx.validate("NoiseTrace", "NoiseTrace.cfg", t, label="circuits at level " + lv)
        return t
    ts = ctx.par(*[(lambda i=i, lv=lv: one(i, lv)) for i, lv in enumerate(plan)])
    fd.result()
    ctx.sample(ts[0], 3, skip=5)
    ctx.extra["plan"] = {k: {"keys": v[0], "gate_programs": v[1], "lut_programs": v[2]} for k, v in plan.items()}
    ctx.extra["operations_per_program"] = depth
