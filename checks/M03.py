"""2D occupancy grids: insertion, growing, cropping, serialization, texture."""


def odd(rng, lo, hi):
    return rng.randrange(lo * 16, hi * 16) | 1


def scenario(rng, quick):
    ops = []
    for _ in range(rng.randint(2, 7)):
        c = [rng.randrange(-20, 30), rng.randrange(-20, 30)] if rng.random() < .5 else [rng.randrange(0, 6), rng.randrange(0, 6)]
        span = rng.choice([2, 5, 13])
        pt = lambda: [odd(rng, c[0], c[0] + span), odd(rng, c[1], c[1] + span)]
        org = pt()
        ret = [pt() for _ in range(rng.choice([0, 1, 1, 2, 4, 9]))]
        mis = [pt() for _ in range(rng.choice([0, 0, 1, 3]))]
        if ret and rng.random() < .3:
            mis.append(list(ret[0]))          # a miss through the cell of a return
        if ret and rng.random() < .3:
            ret.append([ret[0][0] ^ 2, ret[0][1] ^ 4])  # two returns in one cell
        if rng.random() < .1:
            ret.append(list(org))
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            ops.append({"o": "ins", "org": org, "ret": ret, "mis": mis})
        while rng.random() < .45:
            k = rng.choice(["crop", "proto", "read", "grow", "tex"])
            o = {"o": k}
            if k == "grow":
                o["p"] = [odd(rng, -40, 40), odd(rng, -40, 40)]
            ops.append(o)
    ops += [{"o": "read"}, {"o": "tex"}]
    return {"res": rng.choice([0.0625, 0.125, 0.5, 1.0]), "max": [rng.randrange(-64, 64), rng.randrange(-64, 64)],
            "size": [rng.choice([1, 2, 3, 5, 10]), rng.choice([1, 2, 3, 5, 10])], "free": rng.random() < .85,
            "hit": rng.choice([[11, 9], [3, 2], [7, 3], [9, 1]]), "miss": rng.choice([[12, 13], [2, 3], [1, 3]]), "ops": ops}


def run(ctx):
    ctx.model("Grid2DMC", "SPECIFICATION Spec\nCONSTANTS Step = %d\nINVARIANTS InRange Moves Mirror First\n" % ctx.scale(23, 1))
    exe = ctx.build("grid_2d_driver")
    sc = [scenario(ctx.rng, ctx.quick) for _ in range(ctx.scale(300, 4000))]
    ctx.validate("Grid2DTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
