"""Pose extrapolation: planar histories and gravity tracking."""


def history(rng, n, dur, mono):
    ops, now, last_pose = [], 0, None
    use = rng.choice(["p", "pi", "po", "pio", "pio"])
    last = {"i": -1, "o": -1, "x": -1}
    if "i" in use and rng.random() < .4:
        ops.append({"op": "InitImu", "t": 0, "w": rng.randint(-6, 6)})
        last_pose, last["i"], last["x"] = 0, 0, 0
    x, y, a = 0, 0, 0
    for _ in range(n):
        r = rng.random()
        now += rng.choice([0, 0, 1, 1, 2, 3, 5])
        bad = rng.random() < .02

        def early(t):  # data older than the last pose is refused
            return rng.randrange(last_pose) if bad and last_pose else t
        if r < .3 or last_pose is None and r < .6:
            x, y, a = x + rng.randint(-9, 9), y + rng.randint(-9, 9), max(-80, min(80, a + rng.randint(-25, 25)))
            t = now if not bad else max(0, now - 3)
            ops.append({"op": "Pose", "t": t, "p": [x, y, a]})
            last_pose, last["x"] = t, t
        elif r < .5 and "i" in use:
            now = max(now, last["i"] + 1)
            ops.append({"op": "Imu", "t": early(now), "w": rng.randint(-6, 6)})
            last["i"] = now
        elif r < .7 and "o" in use:
            now = max(now, last["o"] + 1)
            ops.append({"op": "Odo", "t": early(now), "p": [rng.randint(-15, 15), rng.randint(-15, 15), rng.randint(-20, 20)]})
            last["o"] = now
        elif last_pose is not None:
            q = rng.random()
            ahead = rng.choice([0, 0, 0, 1, 2, 7])
            base = max(last_pose, min(now, last["x"])) if rng.random() < .4 else now
            t = base + ahead
            if t < last["x"] and not bad:
                t = last["x"]
            if bad:
                t = max(0, last_pose - rng.choice([0, 1, 2]))
            if q < .7:
                ops.append({"op": "Ask", "t": t})
                last["x"] = max(last["x"], t)
            elif q < .85:
                ts = [t]
                for _ in range(rng.randint(0, 3)):
                    ts.append(ts[-1] + rng.choice([0, 1, 2, 4]))
                ops.append({"op": "Many", "ts": ts})
                last["x"] = max(last["x"], ts[-1])
            else:
                ops.append({"op": "Grav", "t": t})
            # (later data may not be older than what was looked ahead to)
            if rng.random() < .5:
                now = max(now, t)
    return ops


def run(ctx):
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nMaxT = %d\nDur = 1\nGen = %s\nINVARIANTS AtPose Window Steady\nCHECK_DEADLOCK FALSE\n"
    ctx.model("PoseExtrapolatorMC", cfg % (ctx.scale(4, 5), ctx.scale(2, 3), "FALSE"))
    hists = ctx.generate("PoseExtrapolatorMC", cfg % (ctx.scale(4, 5), 2, "TRUE"))
    if len(hists) > ctx.scale(4000, 60000):
        hists = rng.sample(hists, ctx.scale(4000, 60000))
    exe = ctx.build("extrapolator_driver")
    sc = []
    for h in hists:
        sc.append({"k": "run", "dur": 1, "ops": h})
        # the questions again, at the end
    for _ in range(ctx.scale(3000, 40000)):
        sc.append({"k": "run", "dur": rng.choice([1, 1, 3, 8]), "ops": history(rng, rng.randint(3, 25), 3, True)})
    for _ in range(ctx.scale(300, 3000)):
        t, obs = 0, []
        for i in range(rng.randint(1, 6)):
            while True:
                a = [rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(-2, 9)]
                if obs and rng.random() < .6:
                    a = list(obs[-1]["a"])
                    a[rng.randrange(3)] += rng.randint(-2, 2)
                # keep away from vectors that cancel out
                if sum(v * v for v in a) > 16 and (not obs or sum(u * v for u, v in zip(a, obs[-1]["a"])) > 0) and (not obs or sum(u * v for u, v in zip(a, obs[0]["a"])) > 0):
                    break
            obs.append({"t": t, "a": a, "pose": rng.random() < .3})
            t += rng.randint(1, 3)
        sc.append({"k": "tilt", "dur": 1, "tracker": rng.random() < .5, "obs": obs})
    ctx.validate("PoseExtrapolatorTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
