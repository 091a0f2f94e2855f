"""Fixed-ratio sampling."""


def run(ctx):
    rng = ctx.rng
    ctx.model("RatioSamplerMC", "SPECIFICATION Spec\nCONSTANTS Q = 6\n N = 14\nINVARIANTS All None Possible\n")
    sc = []
    for q in range(1, ctx.scale(12, 40)):
        for p in range(0, q + 1):
            sc.append({"what": "sampler", "p": p, "q": q, "n": ctx.scale(40, 200)})
    for _ in range(ctx.scale(60, 600)):
        q = rng.randint(1, 1000)
        sc.append({"what": "sampler", "p": rng.randint(0, q), "q": q, "n": ctx.scale(300, 3000)})
    for _ in range(ctx.scale(300, 3000)):
        q = rng.randint(2, 30)
        bs = []
        for _ in range(rng.randint(1, 6)):
            bs.append("restart" if rng.random() < 0.15 else rng.randint(0, 30))
        sc.append({"what": "points", "p": rng.randint(1, q - 1), "q": q, "batches": bs})
    # Long runs, where rounding would show.
    for p, q in [(1, 3), (1, 10), (3, 7), (999, 1000), (1, 1000), (2, 3), (1, 1)]:
        sc.append({"what": "bulk", "p": p, "q": q, "lens": [rng.randint(1, 1000), ctx.scale(30000000, 400000000)]})
    for _ in range(ctx.scale(20, 200)):
        q = rng.randint(2, 3000)
        sc.append({"what": "bulk", "p": rng.randint(1, q), "q": q, "lens": [rng.randint(1, 200000) for _ in range(4)]})
    exe = ctx.build("ratio_driver")
    ctx.validate("RatioSamplerTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc),
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
