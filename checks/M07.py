"""Correlative scan matching finds the optimum of its search window."""

MC = """SPECIFICATION Spec
CONSTANTS N = %d
V = {0, 1, 2}
Depth = %d
W = {%s}
INVARIANTS Bounds Optimal
CHECK_DEADLOCK FALSE
"""


def grid2(rng, tsdf, big=False):
    nx, ny = rng.randint(1, 9 if big else 6), rng.randint(1, 9 if big else 6)
    cells = [[x, y] for x in range(nx) for y in range(ny)]
    top = 127 if tsdf else 255
    rng.shuffle(cells)
    cells = cells[: rng.randint(1, max(1, len(cells) * 2 // 3))]
    few = rng.random() < .4
    return {"nx": nx, "ny": ny, "mx": rng.randint(-3000, 9000), "my": rng.randint(-3000, 9000), "tsdf": tsdf,
            "cells": [c + [rng.choice([0, 80, top]) if few else rng.randint(0, top), rng.randint(1, 4)] for c in cells]}


def cloud2(rng, n, reach):
    return [[rng.randint(-reach, reach), rng.randint(-reach, reach)] for _ in range(n)]


def fast2(rng):
    g = grid2(rng, rng.random() < .25)
    g["kind"] = "fast2"
    g["matches"] = []
    for _ in range(3):
        full = rng.random() < .25
        n = rng.randint(1, 4)
        g["matches"].append({"pts": cloud2(rng, n, 2500 if full else 4000), "init": [g["mx"] - rng.randint(-1500, 1000 * g["ny"] + 1500), g["my"] - rng.randint(-1500, 1000 * g["nx"] + 1500), rng.randint(-180, 180)],
                             "full": full, "lin": rng.choice([.5, 1.3, 2.4, 3.7, 5.2]), "ang": rng.choice([1, 14, 25, 60]), "depth": rng.randint(1, 4),
                             "min2": rng.choice([1, 1, 2 * rng.randint(0, 200 * n) + 1])})
    return g


def rt2(rng):
    g = grid2(rng, rng.random() < .4)
    g["kind"] = "rt2"
    g["matches"] = []
    for _ in range(2):
        g["matches"].append({"pts": cloud2(rng, rng.randint(1, 3), 4000), "init": [g["mx"] - rng.randint(-1500, 1000 * g["ny"] + 1500), g["my"] - rng.randint(-1500, 1000 * g["nx"] + 1500), rng.randint(-180, 180)],
                             "lin": rng.choice([.5, 1.3]), "ang": rng.choice([14, 25, 60]), "tw": rng.choice([0, 1, 8]), "rw": rng.choice([0, .5, 2])})
    return g


def grid3(rng, n):
    r = rng.choice([2, 4])
    cells = {}
    base = [rng.choice([0, 0, -20, 40]) for _ in range(3)]
    for _ in range(n):
        cells[tuple(b + rng.randint(-r, r) for b in base)] = rng.choice([80, 255, rng.randint(1, 255)])
    return base, [list(k) + [v] for k, v in cells.items()]


def pose3(rng, at, tilt):
    t = [1000 * b + rng.randint(-1500, 1500) for b in at]
    if tilt:
        return t + [rng.randint(-180, 180), rng.randint(-60, 60), rng.randint(-180, 180)]
    return t + [0, 0, rng.randint(-180, 180)]


def fast3(rng):
    base, cells = grid3(rng, rng.randint(1, 12))
    k = rng.choice([2, 3])
    coarse = {}
    for _ in range(rng.randint(0, 8)):
        coarse[tuple((b + rng.randint(-4, 4)) // k for b in base)] = rng.choice([300, 600, 900])
    h = rng.choice([1, 3, 5])
    g = {"kind": "fast3", "cells": cells, "k": k, "coarse": [list(c) + [v] for c, v in coarse.items()], "hist": [rng.randint(0, 4) for _ in range(h)], "matches": []}
    for _ in range(3):
        full = rng.random() < .12
        n = rng.randint(1, 3)
        pts = [[rng.randint(-2500, 2500) for _ in range(3)] for _ in range(n)]
        low = [[rng.randint(-2500, 2500) for _ in range(3)] for _ in range(rng.randint(1, 3))]
        tilt = rng.random() < .5
        node, sub = pose3(rng, [0, 0, 0], tilt), pose3(rng, [0, 0, 0], tilt)
        if any(base) and not full:
            sub = pose3(rng, [0, 0, 0], False)
            sub[:3], sub[5] = [0, 0, 0], 0
            node[:3] = pose3(rng, base, False)[:3]
        g["matches"].append({"pts": pts, "low": low, "node": node, "submap": sub, "grav": pose3(rng, [0, 0, 0], tilt), "full": full, "hist": [rng.randint(0, 4) for _ in range(h)],
                             "lin": rng.choice([.2, 1.2, 2.1, 3.3]), "linz": rng.choice([.2, 1.2, 2.1]), "ang": rng.choice([1, 24, 45]), "depth": 6 if full else rng.randint(1, 4),
                             "fulldepth": rng.randint(1, 4), "minrot": rng.choice([0, 0, 0, .6]), "minlow": rng.choice([0, 0, 234, 456]), "min2": rng.choice([1, 1, 2 * rng.randint(0, 150 * n) + 1])})
    return g


def rt3(rng):
    base, cells = grid3(rng, rng.randint(1, 12))
    g = {"kind": "rt3", "cells": cells, "matches": []}
    for _ in range(3):
        g["matches"].append({"pts": [[rng.randint(-2500, 2500) for _ in range(3)] for _ in range(rng.randint(1, 2))], "init": pose3(rng, base, rng.random() < .5),
                             "lin": rng.choice([.2, 1.2]), "ang": rng.choice([1, 20]), "tw": rng.choice([0, 1, 8]), "rw": rng.choice([0, .5, 2])})
        if g["matches"][-1]["lin"] > 1 and g["matches"][-1]["ang"] > 1:
            g["matches"][-1]["ang"] = 1
    return g


def run(ctx):
    rng = ctx.rng
    ctx.model("ScanMatchMC", MC % (3, 2, "1, 3"))
    if not ctx.quick:
        ctx.model("ScanMatchMC", MC % (4, 2, "1, 2, 3"))
        ctx.model("ScanMatchMC", MC % (3, 3, "1, 2, 4"))
    exe = ctx.build("scan_match_driver")
    sc = [fast2(rng) for _ in range(ctx.scale(400, 6000))]
    sc += [dict(grid2(rng, rng.random() < .3, True), kind="bounds2") for _ in range(ctx.scale(60, 600))]
    sc += [rt2(rng) for _ in range(ctx.scale(100, 1500))]
    sc += [fast3(rng) for _ in range(ctx.scale(400, 6000))]
    sc += [{"kind": "levels3", "cells": grid3(rng, 12)[1], "levels": [[rng.random() < .5, rng.choice([0, 1, 2, 3, 4])] for _ in range(2)]} for _ in range(ctx.scale(40, 400))]
    sc += [rt3(rng) for _ in range(ctx.scale(60, 800))]
    ctx.validate("ScanMatchTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
