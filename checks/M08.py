"""Local SLAM: accumulation, range limits, motion filter, insertion."""


def cloud_points(rng, c, back):
    pts, n = [], rng.choice([0, 1, 2, 3, 5, 8])
    dts = sorted(-rng.randint(0, back) for _ in range(n))
    if dts:
        dts[-1] = 0
    used = set()
    for dt in dts:
        while True:
            r = rng.random()
            if r < .25:  # far, whole distance
                k = rng.randint(1, 4) * 10
                x, y = rng.choice([(3, 4), (4, 3), (-3, 4), (5, 0), (0, -5), (-4, -3)])
                p = [x * k, y * k, 0]
            elif r < .4:
                p = [rng.randint(-2, 2), rng.randint(-2, 2), 0]
            else:
                p = [rng.randint(-18, 18), rng.randint(-18, 18), rng.choice([0, 0, 0, 1, -1, 4, -4])]
            if tuple(p) not in used:
                break
        used.add(tuple(p))
        pts.append([dt] + p)
    return pts


def whole(n):
    r = int(n ** .5 + .5)
    return r * r == n


def scenario(rng, d3):
    imu = d3 or rng.random() < .4
    c = {"d3": d3, "imu": imu, "dur": rng.choice([1, 4]), "num": rng.choice([1, 1, 2, 3]), "min2": rng.choice([1, 5]),
         "max2": rng.choice([31, 51]), "miss": rng.choice([10, 20]), "zmin": -2, "zmax": 2,
         "mf": {"t": rng.choice([0, 5, 30, 1000]), "d": rng.choice([0, 130, 430]), "a": rng.choice([0, 250000, 1150000, 18000000])},
         "nrd": rng.choice([1, 2, 3])}
    odo = rng.random() < .6
    ops, now, last, started = [], 0, {"i": -1, "o": -1}, False
    x = y = a = 0
    if d3 and rng.random() < .9 or imu and rng.random() < .6:
        ops.append({"op": "Imu", "t": 0, "w": rng.randint(-3, 3)})
        last["i"], started = 0, True
    pose_t = 0
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        now += rng.choice([0, 1, 2, 4])
        if r < .25 and imu:
            now = max(now, last["i"] + 1)
            ops.append({"op": "Imu", "t": now, "w": rng.randint(-3, 3)})
            last["i"], started = now, True
        elif r < .5 and odo:
            now = max(now, last["o"] + 1)
            x, y, a = x + rng.randint(-3, 3), y + rng.randint(-3, 3), a + rng.randint(-8, 8)
            ops.append({"op": "Odo", "t": now, "p": [x, y, a]})
            last["o"] = now
        elif rng.random() < .02 and not imu and not d3:
            ops.append({"op": "Imu", "t": now, "w": 1})  # unexpected: refused
            break
        else:
            now += 1
            o = [0, 0, 0] if rng.random() < .6 else [rng.randint(-2, 2), rng.randint(-2, 2), 0]
            back = rng.choice([0, 0, 1, 2, 6])
            pts = [p for p in cloud_points(rng, c, back)]
            for p in pts:
                d2 = sum((p[i + 1] - o[i]) ** 2 for i in range(3))
                if 4 * d2 > c["max2"] ** 2 and not whole(d2):
                    p[1], p[2], p[3] = o[0] + 7 + pts.index(p), o[1], o[2]  # not so far
            if pts:
                pts[-1][0] = 0
            ops.append({"op": "Cloud", "t": now, "pts": pts, "o": o})
    return {"k": "slam", "c": c, "ops": ops}


def run(ctx):
    rng = ctx.rng
    ctx.model("LocalSlamMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nMaxT = %d\nINVARIANTS Types Accumulate Inserted\nPROPERTIES Monotone\nCHECK_DEADLOCK FALSE\n" % (ctx.scale(4, 5), ctx.scale(4, 5)))
    exe = ctx.build("local_slam_driver")
    sc = []
    for _ in range(ctx.scale(900, 12000)):
        sc.append(scenario(rng, False))
    for _ in range(ctx.scale(500, 8000)):
        sc.append(scenario(rng, True))
    for _ in range(ctx.scale(600, 6000)):
        t, p, ops = 0, [0, 0, 0, 0], []
        c = {"t": rng.choice([0, 1, 4]), "d": rng.choice([0, 5, 13, 100]), "a": rng.choice([0, 1, 10, 180])}
        for _ in range(rng.randint(1, 15)):
            t += rng.choice([0, 0, 1, 2, 5])
            q = rng.random()
            if q < .5:
                dx, dy = rng.choice([(3, 4), (5, 0), (0, 5), (5, 12), (0, 0), (1, 0), (-3, -4), (6, 0), (-12, 5)])
                i, j = rng.sample(range(3), 2)
                p[i] += dx
                p[j] += dy
            if q > .3:
                p[3] = (p[3] + rng.choice([0, 1, -1, 9, 10, 11, -10, -12, 179, 90, 350])) % 360
            ops.append({"t": t, "p": list(p)})
        sc.append({"k": "filter", "c": c, "ops": ops})
    ctx.validate("LocalSlamTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
