"""Ray casting: all rays in a box, plus long rays at fine scales."""


def run(ctx):
    rng = ctx.rng
    ctx.model("RayMC", "SPECIFICATION Spec\nCONSTANTS N = 3\n S = 2\nINVARIANT Good\n")
    ctx.model("RayMC", "SPECIFICATION Spec\nCONSTANTS N = 2\n S = 3\nINVARIANT Good\n")
    sc = []
    for s, n in ctx.scale([(1, 6), (2, 4), (3, 3), (4, 3)], [(1, 9), (2, 6), (3, 5), (4, 5), (5, 4), (7, 3)]):
        for x in range(n * s):
            for y in range(n * s):
                sc.append({"s": s, "k": 1, "b": [x, y], "n": n})
                if (x * 7 + y) % 5 == 0:
                    sc.append({"s": s, "k": rng.choice([3, 101, 33333]), "b": [x, y], "n": n})
    for _ in range(ctx.scale(400, 6000)):
        s = rng.choice([1, 2, 5, 10, 100, 1000])
        n = min(60, 14000 // s)
        rays = []
        for _ in range(5):
            b = [rng.randrange(n * s), rng.randrange(n * s)]
            e = [rng.randrange(n * s), rng.randrange(n * s)]
            m = rng.random()
            if m < 0.15:
                e[rng.randrange(2)] = b[0]
            elif m < 0.3:
                e = [max(0, min(n * s - 1, b[0] + rng.choice([-1, 1]) * (n // 2) * s)), max(0, min(n * s - 1, b[1] + rng.choice([-1, 1]) * (n // 2) * s))]
            elif m < 0.4:
                e = [rng.randrange(n * s), max(0, min(n * s - 1, b[1] + rng.randint(-1, 1)))]
            rays.append([b, e])
        k = rng.choice([1, 1, 3, 999]) if s < 100 else 1
        sc.append({"s": s, "k": k, "rays": rays})
    exe = ctx.build("ray_driver")
    ctx.validate("RayTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc),
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
