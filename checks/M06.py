"""Trajectory connectivity."""
CFG = "SPECIFICATION Spec\n"
MC = """SPECIFICATION Spec
CONSTANTS T = {%s}
 Depth = %d
 Gen = %s
INVARIANTS Closure Partition Symmetric TimedIffConnected UntrackedAlone
"""


def run(ctx):
    hs = ctx.generate("ConnectivityMC", MC % ("0,1,2", 3, "TRUE"))
    ctx.model("ConnectivityMC", MC % ("0,1,2,3", ctx.scale(3, 4), "FALSE"))
    sc = [{"ops": h, "obs": "all"} for h in hs]
    rng = ctx.rng
    sc = sc if not ctx.quick else rng.sample(sc, min(len(sc), 6000))
    for _ in range(ctx.scale(2500, 30000)):
        ops = []
        ids = rng.sample(range(5), rng.randint(2, 5))
        for i in range(rng.randint(1, 14)):
            a, b = rng.choice(ids), rng.choice(ids)
            if rng.random() < 0.2:
                ops.append({"o": "add", "a": a, "b": a, "time": 0})
            else:
                ops.append({"o": "con", "a": a, "b": b, "time": rng.randint(1, 9)})
        sc.append({"ops": ops, "obs": rng.choice(["all", "end"])})
    exe = ctx.build("connectivity_driver")
    traces = ctx.drive(exe, sc)
    ctx.validate("ConnectivityTrace", CFG, traces, rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
