"""Voxel filters."""


def border(x, num, den):
    """Distance of x from the nearest voxel border, relative to the edge."""
    f = (x * den / num + 0.5) % 1.0
    return min(f, 1 - f)


def coord(rng, lim, length):
    while True:
        x = rng.randint(-lim, lim)
        if all(border(x, length, 2 ** k) > 2e-3 for k in range(0, 8)):
            return x


def scenario(rng, adaptive):
    length = rng.choice([50, 100, 250, 700, 1000, 2000])
    lim = rng.choice([length * 2, length * 6, 5000, 12000])
    n = rng.choice([0, 1, 2, 5, 10, 20, 40])
    flat = rng.random() < 0.4
    pts = []
    for _ in range(n):
        m = rng.random()
        if pts and m < 0.1:
            p = list(rng.choice(pts))
        elif pts and m < 0.4:
            q = rng.choice(pts)
            p = [coord(rng, max(2, length // 3), length) + q[0], coord(rng, max(2, length // 3), length) + q[1], q[2]]
            if not all(all(border(x, length, 2 ** k) > 2e-3 for k in range(8)) for x in p) or max(map(abs, p)) > 15000:
                p = list(q)
        else:
            p = [coord(rng, lim, length), coord(rng, lim, length), 1 if flat and border(1, length, 128) > 2e-3 else coord(rng, lim, length)]
        pts.append(p)
    rg = rng.choice([lim // 2, lim, 30000])
    while any(abs((p[0] ** 2 + p[1] ** 2 + p[2] ** 2) ** 0.5 - rg) < 0.5 for p in pts):
        rg += 1
    return {"what": "voxel", "pts": pts, "len": length, "min": rng.choice([0, 1, 3, 5, 10, 20, 30, 60]),
            "range": rg, "distinct": len(set(map(tuple, pts))) == len(pts)}


def run(ctx):
    sc = [scenario(ctx.rng, True) for _ in range(ctx.scale(2000, 30000))]
    exe = ctx.build("cloud_driver")
    ctx.validate("VoxelFilterTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc),
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
