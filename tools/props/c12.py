import random

from props.c01 import write_programs

M = {"U1": 2, "80": 4, "128": 4, "110": 4, "U2": 4, "U3": 8, "U4": 8, "U5": 8}


def run(ctx):
    exe, race = ctx.par(lambda: ctx.build("c12"), lambda: ctx.build("c12", race=True))
    n = ctx.pick(1, 8)
    pairs, g, k, *_ = ctx.par(
        lambda: ctx.enumerate("ConcurPairs", "ConcurPairs.cfg", mem="1g"),
        lambda: ctx.generate("ConcurGen", "ConcurGen.cfg", 24 * n, 170, mem="1g"),
        lambda: ctx.generate("ConcurGen", "ConcurGenK.cfg", 8 * n, 170, seed_off=1, mem="1g"),
        lambda: ctx.model("Concur", "ConcurMC.cfg", mem="1g"),
        lambda: ctx.model("Concur", "ConcurMC2.cfg", mem="1g"),
        *[(lambda i=i: ctx.model("Concur", "ConcurBad%d.cfg" % i, expect_violation="Invariant Sequential is violated", mem="1g")) for i in (1, 2, 3)])
    if not ctx.quick:
        ctx.model("Concur", "ConcurMC3.cfg", mem="8g", workers=6, timeout=1200)
    P = lambda lv, ps: [{"level": lv, "m": M[lv], "plan": p} for p in ps]
    # (plans, GOMAXPROCS, race detector)
    jobs = {
        "race1": (P("U2", g[:n]), 8, True), "race2": (P("U2", g[3 * n:4 * n]), 4, True),
        "racek": (P("U2", k[:n]), 8, True),
        "u2": (P("U2", g[7 * n:11 * n]), 8, False), "u2p2": (P("U2", g[13 * n:14 * n]), 2, False), "80": (P("80", g[15 * n:16 * n]), 8, False),
        "128": (P("128", g[17 * n:18 * n]), 8, False), "u3": (P("U3", g[19 * n:20 * n]), 8, False), "u4": (P("U4", g[20 * n:21 * n]), 8, False),
        "u1": (P("U1", g[21 * n:22 * n]), 4, False), "110": (P("110", g[22 * n:23 * n]), 3, False),
        "keys": (P("U2", k[2 * n:3 * n]) + P("80", k[4 * n:5 * n]), 8, False), "keys128": (P("128", k[5 * n:6 * n]), 8, False),
    }
    # every pair of operation kinds under the race detector; the quick tier
    # takes the equal pairs and a sample of the others
    rnd = random.Random(ctx.seed)
    slow = {10, 35, 36}  # nested bootstraps, key generation
    if ctx.quick:
        same = [p["round"] for p in pairs if p["i"] == p["j"] and p["j"] < 35]
        mixed = [p["round"] for p in pairs if p["i"] != p["j"] and not {p["i"], p["j"]} & slow]
        rounds = same + rnd.sample(mixed, 60)
    else:
        rounds = [p["round"] for p in pairs]
    rnd.shuffle(rounds)
    k3 = ctx.pick(2, 6)
    for i in range(k3):
        jobs["pairs%d" % i] = ([{"level": "U2", "m": 4, "plan": rounds[i::k3]}], 4, True)
    if not ctx.quick:
        jobs["u5"] = (P("U5", g[:2]), 8, False)
        jobs["race128"] = (P("128", k[6 * n:7 * n]), 8, True)

    def one(name):
        ps, procs, rc = jobs[name]
        f = ctx.path("prog_%s.ndjson" % name)
        write_programs(f, ps)
        return ctx.drive(race if rc else exe, name, [f], env={"GOMAXPROCS": procs})
    traces = ctx.par(*[(lambda nm=nm: one(nm)) for nm in jobs])
    whole = ctx.concat(traces, "all")
    ctx.validate("ConcurTrace", "ConcurTrace.cfg", whole)
    ctx.sample(whole, 4, skip=3)
    ctx.extra["plans"] = {k: len(v[0]) for k, v in jobs.items()}
    ctx.extra["race_detector"] = [k for k, v in jobs.items() if v[2]]
