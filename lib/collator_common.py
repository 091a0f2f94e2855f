"""Shared by S01 and S02."""
INV = "INVARIANTS Sorted Once PerSensor OnlyEarlyDropped NoneMissing FlushedIsEmpty FinishedAloneIsEmpty\n"


def cfg(nt, ns, depth, dts, joint, pr):
    return ("SPECIFICATION Spec\nCONSTANTS Trajectories = {%s}\n Sensors = {%s}\n Depth = %d\n Dts = {%s}\n"
            " Joint = %s\n Gen = %s\n%s") % (
        ",".join(map(str, range(nt))), ",".join(map(str, range(ns))), depth, ",".join(map(str, dts)),
        "TRUE" if joint else "FALSE", "TRUE" if pr else "FALSE", INV)


def random_history(rng, joint):
    ops, now, alive, n, glob = [], {}, {}, 0, 1
    nt = rng.randint(1, 4)
    pend = list(range(nt))
    rng.shuffle(pend)
    length = rng.randint(5, 45)
    maxdt = rng.choice([1, 2, 5])
    finished = set()
    while len(ops) < length:
        r = rng.random()
        if pend and (not alive or r < 0.1):
            t = pend.pop()
            ss = rng.sample(range(4), rng.randint(1, 3))
            ops.append({"o": "traj", "t": t, "ss": ss})
            alive[t] = ss
            for s in ss:
                # a trajectory that joins a running merge has no older data
                now[t, s] = glob if joint else rng.randint(1, 6)
        elif alive and r < 0.9:
            t = rng.choice(list(alive))
            # sometimes a sensor nobody expects
            s = rng.choice(alive[t]) if rng.random() < 0.95 else rng.randrange(4)
            if (t, s) not in now:
                time = rng.randint(1, 50)
            else:
                now[t, s] += rng.randint(0, maxdt) if rng.random() < 0.8 else rng.randint(0, 9)
                time = now[t, s]
                glob = max(glob, time)
            n += 1
            ops.append({"o": "data", "t": t, "s": s, "time": time, "n": n})
        elif alive and r < 0.95:
            t = rng.choice(list(alive))
            ops.append({"o": "finish", "t": t})
            del alive[t]
        elif not alive and not pend:
            break
    return {"joint": joint, "ops": ops}


def backlog(rng, joint, n):
    """One sensor far ahead of another, which then catches up or never does."""
    ops = [{"o": "traj", "t": 0, "ss": [0, 1]}, {"o": "traj", "t": 1, "ss": [0]}]
    k = 0

    def data(t, s, time):
        nonlocal k
        k += 1
        ops.append({"o": "data", "t": t, "s": s, "time": time, "n": k})
    if rng.random() < 0.7:
        data(0, 0, 5)
        data(0, 1, 5)
        data(1, 0, 5)
    busy = rng.choice([(0, 0), (1, 0)])
    for i in range(n):
        data(*busy, 6 + i // 2)
    if rng.random() < 0.5:
        other = (0, 1)
        for i in range(3):
            data(*other, 6 + i * n // 5)
        if busy == (1, 0):
            data(0, 0, 6 + n // 3)
    for t in rng.sample([0, 1], 2):
        ops.append({"o": "finish", "t": t})
    return {"joint": joint, "ops": ops}


def run(ctx, joint):
    for nt, ns, depth, dts in ctx.scale([(1, 3, 6, [0, 1]), (2, 1, 7, [0, 1]), (2, 2, 6, [1])],
                                        [(1, 3, 8, [0, 1]), (2, 1, 9, [0, 1]), (2, 2, 8, [1]), (3, 1, 8, [0, 1])]):
        hs = ctx.generate("CollatorMC", cfg(nt, ns, depth, dts, joint, True), timeout=800)
        seen = set()
        sc = []
        for h in hs:
            k = str(h)
            if k not in seen:
                seen.add(k)
                sc.append({"joint": joint, "ops": h})
        n = ctx.scale(4500, 10**9)
        sc = sc if len(sc) <= n else ctx.rng.sample(sc, n)
        validate(ctx, sc, "%d-call histories, %d trajectories x %d sensors" % (depth, nt, ns))
    validate(ctx, [random_history(ctx.rng, joint) for _ in range(ctx.scale(2500, 40000))], "random histories")
    validate(ctx, [backlog(ctx.rng, joint, n) for n in ctx.scale([120, 300, 560, 1200], [130, 300, 520, 700, 1100, 2100, 4200])],
             "long backlogs")


def validate(ctx, sc, label):
    if not sc:
        return
    exe = ctx.build("collator_driver")
    traces = ctx.drive(exe, sc)
    ctx.validate("CollatorTrace", "SPECIFICATION Spec\n", traces, label=label,
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
