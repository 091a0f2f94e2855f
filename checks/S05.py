"""Time-indexed sensor history and pose interpolation."""
MC = "SPECIFICATION Spec\nCONSTANTS W = %d\n NData = %d\n NNodes = %d\nINVARIANTS Bracket NothingLeft Subset\n"


def from_model(h):
    ops = [{"o": "data", "t": 0, "time": x, "n": x} for x in sorted(h["data"])]
    ops += [{"o": "node", "t": 0, "time": x, "n": 0} for x in sorted(h["nodes"])]
    ops += [{"o": "trim", "t": 0, "time": x, "n": 0} for x in h["trims"]]
    return {"what": "map", "ops": ops}


def random_map(rng):
    ops, dl, nl, nodes, n = [], {}, {}, {}, 0
    for _ in range(rng.randint(3, 25)):
        t = rng.randrange(3)
        r = rng.random()
        if r < 0.5:
            x = dl.get(t, 0) + rng.randint(1, 2)
            if rng.random() < 0.01:
                x = max(0, x - 2)
            n += 1
            if x > 12:
                continue
            ops.append({"o": "data", "t": t, "time": x, "n": n})
            dl[t] = x
        elif r < 0.75:
            x = nl.get(t, -1) + rng.randint(1, 4)
            if x > 12 or (t in nl and nodes[t] == []):
                continue
            nl[t] = x
            nodes.setdefault(t, []).append(x)
            ops.append({"o": "node", "t": t, "time": x, "n": 0})
        elif nodes.get(t):
            # trimming the newest closes the trajectory for appending
            c = nodes[t][:-1] or nodes[t]
            x = rng.choice(c)
            if len(nodes[t]) == 1:
                continue
            nodes[t].remove(x)
            ops.append({"o": "trim", "t": t, "time": x, "n": 0})
    for t in nodes:
        if rng.random() < 0.5:
            for x in rng.sample(nodes[t], len(nodes[t])):
                ops.append({"o": "trim", "t": t, "time": x, "n": 0})
    return {"what": "map", "ops": ops}


def random_buffer(rng):
    now, yaw = 0, rng.randint(-170, 180)
    limit = None

    def push():
        nonlocal now, yaw
        now += rng.choice([0, 1, 1, 2, 3, 7])
        yaw = (yaw + rng.randint(-179, 179) + 180) % 360 - 180
        return {"o": "push", "time": now, "pose": [rng.randint(-50, 50) for _ in range(3)] + [yaw]}
    sc = {"what": "buffer", "ops": []}
    if rng.random() < 0.2:
        sc["proto"] = True
        sc["init"] = [push() for _ in range(rng.randint(1, 5))]
    last_push = None
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        if r < 0.7:
            if now < 30:
                sc["ops"].append(push())
        elif r < 0.85:
            sc["ops"].append({"o": "limit", "n": rng.randint(1, 6)})
        elif r < 0.9:
            sc["ops"].append({"o": "clear"})
        elif r < 0.95:
            sc["ops"].append({"o": "lookup", "time": rng.randint(0, 36)})
    if rng.random() < 0.03:
        sc["ops"].append({"o": "push", "time": max(0, now - 1), "pose": [0, 0, 0, 0]})
    return sc


def run(ctx):
    rng = ctx.rng
    hs = ctx.generate("TimeMapMC", MC % ctx.scale((6, 4, 3), (7, 5, 4)))
    sc = [from_model(h) for h in hs if h["data"]]
    sc = rng.sample(sc, min(len(sc), ctx.scale(3000, 20000)))
    sc += [random_map(rng) for _ in range(ctx.scale(800, 10000))]
    exe = ctx.build("time_series_driver")
    rerun = lambda t: ctx.drive(exe, [dict(t["in"])])[0]
    ctx.validate("TimeMapTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=rerun)
    sc = [random_buffer(rng) for _ in range(ctx.scale(1500, 20000))]
    ctx.validate("PoseBufferTrace", "SPECIFICATION Spec\nINVARIANTS Bounded Ordered\n", ctx.drive(exe, sc), rerun=rerun)
