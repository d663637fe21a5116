import json
def write_programs(path, progs):
    with open(path, "w") as f:
        for p in progs:
            f.write(json.dumps(p) + "\n")

def group(table):
    """Single-gate cases with the same inputs share one encryption."""
    g = {}
    for h in table:
        g.setdefault(json.dumps(h[:3]), []).append(h[3])
    return [json.loads(k) + v for k, v in sorted(g.items())]

def run(ctx):
    exe = ctx.build("c01")
    n = ctx.pick(1, 8)
    (plain, allp, consts, rnd, _) = ctx.par(
        lambda: ctx.enumerate("CircuitTable", "CircuitTablePlain.cfg"),
        lambda: ctx.enumerate("CircuitTable", "CircuitTableAll.cfg"),
        lambda: ctx.enumerate("CircuitTable", "CircuitTableConst.cfg"),
        lambda: ctx.generate("CircuitGen", "CircuitGen.cfg", 60 * n, 22),
        lambda: ctx.model("Circuit", ctx.pick("CircuitMC.cfg", "CircuitMC3.cfg"), mem="6g", workers=4))
    table, aliases, consts = group(plain), group(allp), group(consts)
    rest = iter(rnd)
    take = lambda k: [next(rest) for _ in range(k)]
    jobs = {
        "128a": [("128", p) for p in table],
        "128b": [("128", p) for p in take(14 * n)],
        "80": [("80", p) for p in table + take(7 * n)],
        "110": [("110", p) for p in take(2 * n) + table],
        # XOR-like gates of correlated noisy wires are outside U1's margin
        "U1": [("U1", p) for p in table + [[dict(o, op={"XOR": "AND", "XNOR": "OR"}.get(o["op"], o["op"])) for o in q] for q in take(6 * n)]],
        "U2a": [("U2", p) for p in aliases[0::4] + take(9 * n)],
        "U2k": [("U2", p) for p in consts],
        "U2b": [("U2", p) for p in aliases[2::4] + take(9 * n)],
        "U3": [("U3", p) for p in table + take(6 * n)],
        "U4": [("U4", p) for p in take(1 * n) + table],
        "U5": [("U5", p) for p in take(1 * n) + table[:ctx.pick(4, 8)]],
    }
    if not ctx.quick:
        jobs["U2c"] = [("U2", p) for p in aliases[1::4]]
        jobs["U2d"] = [("U2", p) for p in aliases[3::4]]
        jobs["80c"] = [("80", p) for p in aliases]
    twins = {"U2a", "U2k"} if ctx.quick else {"U2a", "U2k", "U2c", "80c"}
    def one(name):
        f = ctx.path("prog_%s.ndjson" % name)
        # some circuits run under two key pairs in turn, gate by gate
        write_programs(f, [{"level": l, "ops": o, "twin": name in twins or (name == "128b" and i % 4 == 0), "swap": name == "U2b" and i % 2 == 1} for i, (l, o) in enumerate(jobs[name])])
        return ctx.drive(exe, name, [f])
    traces = ctx.par(*[(lambda nm=nm: one(nm)) for nm in jobs])
    whole = ctx.concat(traces, "all")
    ctx.validate("CircuitTrace", "CircuitTrace.cfg", whole)
    ctx.sample(whole, 3, skip=4)
    ctx.extra["circuits"] = sum(len(v) for v in jobs.values())
    ctx.extra["gates_by_level"] = {k: sum(1 for _, p in v for o in p if o["op"].isupper()) for k, v in jobs.items()}
