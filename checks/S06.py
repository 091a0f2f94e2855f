"""Compressed point clouds."""


def scenario(rng):
    lim = rng.choice([5, 1023, 1024, 2100, 50000, 900000])
    n = rng.choice([0, 1, 2, 5, 12, 25])
    pts = []
    for _ in range(n):
        m = rng.random()
        if pts and m < 0.1:
            pts.append(list(rng.choice(pts)))
            continue
        # fractions of a millimetre, clear of rounding ties
        fr = lambda: rng.choice([0, 0, 0.25, -0.25, 0.4, -0.4]) if lim < 50000 else 0
        c = lambda: rng.choice([rng.randint(-lim, lim), rng.randint(-lim, lim), rng.choice([-1, 0, 1]) * 1024 * rng.randint(0, max(1, lim // 1024)) - rng.randint(0, 1)]) + fr()
        pts.append([c(), c(), c()])
    m = rng.random()
    if m < 0.05:
        pts.append([0, 8388608 + rng.randint(2, 5000), 0][::rng.choice([1, -1])])
    elif m < 0.1:
        pts.append([rng.choice([-1, 1]) * (8388000 - rng.randint(0, 500)), 3, -7])
    return {"what": "compress", "pts": pts}


def run(ctx):
    sc = [scenario(ctx.rng) for _ in range(ctx.scale(2500, 40000))]
    exe = ctx.build("cloud_driver")
    ctx.validate("CompressionTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc),
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
