"""3D hybrid grids: storage, growth, iteration, insertion, serialization."""


def coord(rng, lo, hi):
    while True:
        k = rng.randrange(lo * 16, hi * 16)
        if k % 16 != 8:
            return k


def scenario(rng):
    ops, seen = [], []
    big = rng.choice([4, 40, 300, 300, 2000])

    def index():
        m = rng.random()
        if m < .3:  # around the borders of blocks, meta-blocks and the grid
            b = [b for b in (0, 8, 64, 128, 256, 512, 1024, 2048) if b <= max(big, 64)]
            return [rng.choice([-1, 1]) * rng.choice(b) + rng.randint(-1, 0) for _ in range(3)]
        if m < .5 and seen:
            s = rng.choice(seen)
            return [s[0], s[1], s[2]] if rng.random() < .5 else [c + rng.randint(-1, 1) for c in s]
        return [rng.randint(-big, big) for _ in range(3)]

    def vox(p):
        return [(c + 8) // 16 for c in p]
    thr = rng.choice([0, 50, 100])
    for _ in range(rng.randint(3, 10)):
        k = rng.choice(["set", "set", "ins", "ins"])
        if k == "set":
            for _ in range(rng.choice([1, 3, 12])):
                a = index()
                seen.append(a)
                ops.append({"o": "set", "at": a, "v": rng.choice([1, 2, 16384, 32766, 32767, rng.randint(1, 32767)])})
        else:
            c = [rng.randint(-big, big) // rng.choice([1, 1, 8]) for _ in range(3)]
            span = rng.choice([1, 3, 9])
            pt = lambda: [coord(rng, x, x + span) for x in c]
            ret = [pt() for _ in range(rng.choice([0, 1, 2, 6]))]
            org = pt() if rng.random() < .8 else [coord(rng, x - 40, x + 40) for x in c]
            if ret and rng.random() < .3:
                ret.append(list(ret[0]))
            inten = [rng.choice([thr, thr + 1, rng.randint(0, 120)]) for _ in ret] if rng.random() < .7 else []
            for _ in range(rng.choice([1, 1, 2, 4])):
                ops.append({"o": "ins", "org": org, "ret": ret, "int": inten, "noint": not inten and rng.random() < .5})
            seen += [vox(p) for p in ret] + [vox(org)]
        if rng.random() < .4:
            ops.append({"o": rng.choice(["iter", "proto"])})
        if rng.random() < .5:
            ops.append({"o": rng.choice(["get", "geti"]), "c": [index() for _ in range(8)] + seen[-8:]})
    ops += [{"o": "iter"}, {"o": "get", "c": [index() for _ in range(6)] + seen}, {"o": "geti", "c": seen + [index()]}]
    return {"res": rng.choice([0.0625, 0.125, 0.5, 2.0]), "free": rng.choice([0, 1, 2, 5, 100]), "thr": thr,
            "hit": rng.choice([[11, 9], [3, 2], [7, 3], [9, 1]]), "miss": rng.choice([[12, 13], [2, 3], [1, 3]]), "ops": ops}


def run(ctx):
    ctx.model("HybridGridMC", "SPECIFICATION Spec\nCONSTANTS R = %d\nINVARIANTS Rays\n" % ctx.scale(2, 3))
    exe = ctx.build("hybrid_grid_driver")
    sc = [scenario(ctx.rng) for _ in range(ctx.scale(400, 6000))]
    ctx.validate("HybridGridTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
