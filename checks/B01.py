"""Map builder: routing of sensor data to trajectories and callbacks."""
NONE = {"to": -1, "t": 0, "x": 0}


def traj(rng, dim, kind, **kw):
    local = rng.random() < .85
    imu = local and (dim == 3 or rng.random() < .4)
    ss = (["r0"] if local else []) + (["i0"] if imu or rng.random() < .2 and not local else [])
    ss += [s for s in ["o0", "f0", "l0"] if rng.random() < kind]
    if not ss:
        ss = ["o0"]
    t = {"sensors": ss, "local": local, "cl": rng.random() < .5, "cf": rng.random() < .5, "mf": rng.choice([0, 2, 6, 30]),
         "omf": rng.choice([-1, -1, 0, 4, 12]), "imu": imu, "nrd": rng.choice([1, 2, 3]), "num": rng.choice([1, 1, 1, 2]),
         "trim": 0, "init": NONE}
    t.update(kw)
    return t


def scenario(rng):
    dim = rng.choice([2, 2, 3])
    c = {"dim": dim, "every": rng.choice([0, 0, 2, 3]), "bytraj": rng.random() < .5, "threads": rng.choice([1, 2, 4])}
    ops, now = [], 1
    alive = {}
    n = 0
    marks = rng.random() < .5
    kind = rng.choice([.1, .4])

    def data(t, s):
        nonlocal now
        now += rng.choice([1, 1, 1, 2, 5])
        ops.append({"op": "Data", "tr": t, "s": s, "t": now})

    def new(**kw):
        nonlocal n
        t = traj(rng, dim, kind, **kw)
        if not marks:
            t["sensors"] = [s for s in t["sensors"] if s != "l0"] or ["o0"]
        alive[n] = t
        n += 1
        ops.append({"op": "Traj", "t": t})
    if rng.random() < .4:  # something to place later trajectories relative to
        new(sensors=["r0", "i0"] if dim == 3 else ["r0"], local=True, imu=dim == 3, num=1, trim=0)
        if dim == 3:
            data(0, "i0")
        data(0, "r0")
        t0 = now
        if dim == 3:
            data(0, "i0")
        for _ in range(rng.randint(1, 2)):
            new(init={"to": 0, "t": t0, "x": rng.randint(1, 9)})
    else:
        new()
    length = rng.randint(8, 45)
    ahead = rng.random() < .3
    while len(ops) < length and (alive or n < 3):
        r = rng.random()
        if n < 4 and (not alive or r < .06):
            new(trim=rng.choice([0, 0, 0, 2, 3]))
        elif alive and r < .86:
            t = rng.choice(list(alive))
            ss = alive[t]["sensors"]
            if rng.random() < .5:  # one round of all its sensors
                for s in rng.sample(ss, len(ss)):
                    data(t, s)
            elif rng.random() < .03 and "i0" in ss:  # a sensor that was not announced
                s = rng.choice(["o0", "f0"])
                if s in ss or s == "f0" and not alive[t]["cf"]:
                    continue
                data(t, s)
            else:
                s = rng.choice(ss) if not ahead else ss[0]
                data(t, s)
        elif alive and r < .92:
            t = rng.choice(list(alive))
            if not c["bytraj"] and rng.random() < .8:  # let the others get ahead first
                for u in alive:
                    if u != t:
                        for s in alive[u]["sensors"]:
                            data(u, s)
            ops.append({"op": "Finish", "tr": t})
            del alive[t]
        elif r < .96:
            trims = [o["t"]["trim"] for o in ops if o["op"] == "Traj"]
            if not any(trims):
                ops.append({"op": "Query", "tr": rng.randint(-1, n), "n": rng.randint(0, 4)})
        else:
            ops.append({"op": "Check"})
    return {"c": c, "strict": False, "ops": ops}


def backlog():
    """The known finding: finishing a trajectory whose data still waits for
    another trajectory in the joint collator."""
    t = {"sensors": ["r0"], "local": True, "cl": True, "cf": True, "mf": 2, "omf": -1, "imu": False, "nrd": 2, "num": 1,
         "trim": 0, "init": NONE}
    ops = [{"op": "Traj", "t": t}, {"op": "Traj", "t": t}]
    ops += [{"op": "Data", "tr": a, "s": "r0", "t": b} for a, b in [(0, 1), (1, 2), (0, 5), (0, 9)]]
    ops += [{"op": "Finish", "tr": 0}, {"op": "Check"}, {"op": "Data", "tr": 1, "s": "r0", "t": 12}]
    return {"c": {"dim": 2, "every": 0, "bytraj": False, "threads": 1}, "strict": True, "ops": ops}


def run(ctx):
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS Trajectories = {0, 1}\nSensors = {\"r0\", \"i0\", \"o0\", \"f0\", \"l0\"}\nDepth = %d\nJoint = %s\nDim = %d\nGen = %s\n"
           "INVARIANTS OwnData LandmarksAtOnce NoImuNoNodes Apart\nCHECK_DEADLOCK FALSE\n")
    exe = ctx.build("map_builder_driver")
    enum = []
    for joint in (False, True):
        for dim in (2, 3):
            if not ctx.quick or dim == 2 and joint:
                ctx.model("MapBuilderMC", cfg % (ctx.scale(7, 8), str(joint).upper(), dim, "FALSE"))
            for h in ctx.generate("MapBuilderMC", cfg % (ctx.scale(6, 7), str(joint).upper(), dim, "TRUE")):
                enum.append({"c": {"dim": dim, "every": 0, "bytraj": not joint, "threads": 1}, "strict": False, "ops": h})
    if ctx.quick:
        enum = rng.sample(enum, min(len(enum), 1200))
    sc = enum + [scenario(rng) for _ in range(ctx.scale(700, 9000))] + [backlog()]
    ctx.validate("MapBuilderTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
