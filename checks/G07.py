"""Pose graph optimisation: what is tied, what stays, and where the rest ends up."""


def build(rng, dim, mode, fixz, size):
    """A random history of a problem: elements, sensor data, trimming, solves."""
    truth = mode == "truth"
    val = (lambda a, b: 0) if truth else rng.randint
    w = lambda: 0 if rng.random() < 0.15 else rng.randint(1, 5)
    turn = not truth and rng.random() < 0.4
    axis = rng.choice([0, 1]) if not turn else rng.choice([0, 1, 2]) if dim == 3 and fixz else 2
    sc = 10 if turn else 1
    big = 10000
    wr = lambda: rng.randint(1, 5) if truth else big
    tr = lambda: rng.randint(1, 5)
    if turn:
        w, wr, tr = (lambda: big), w, wr
    ws = {"huber": 1000000 if truth else rng.choice([200 // sc, 1000 // sc, 100000]), "acc": rng.randint(3, 10), "rot": wr(),
          "lt": w(), "lr": wr(), "ot": w(), "or": wr(), "ft": w(), "fr": wr()}
    if turn:
        ws["acc"], ws["rot"] = 1, rng.randint(3, 10)
    if truth:
        ws["acc"], ws["rot"] = rng.choice([10, 30]), rng.choice([10, 30])
    imu = dim == 3 and not fixz
    trajs = rng.sample(range(3), rng.choice([1, 2, 2, 3]))
    frozen = [t for t in trajs if rng.random() < 0.2]
    if imu and not truth and rng.random() < 0.8:
        frozen = sorted(set(frozen) | {min(trajs)})
    ops, nodes, subs, last = [], {}, {}, {t: 0 for t in trajs}
    lastt = {}
    vel = {t: rng.randint(-400, 400) // sc for t in trajs}
    px = {t: rng.randint(-3000, 3000) // sc for t in trajs}
    pos = lambda t, time: px[t] + vel[t] * time
    noise = rng.choice([0, 30, 300]) // sc
    nz = lambda: val(-noise, noise)
    firstsub = [True]
    cons, obs = [], []
    nl = rng.randint(0, 3)
    lmx = [rng.randint(-3000, 3000) // sc for _ in range(nl)]
    lfrozen = [rng.random() < 0.25 for _ in range(nl)]
    lgiven = [f or rng.random() < 0.5 for f in lfrozen]
    subx = {}
    useodo = {t: rng.random() < 0.6 for t in trajs}
    usefix = {t: rng.random() < 0.5 for t in trajs}
    fixo = {t: rng.randint(-2000, 2000) // sc for t in trajs}
    # Fixed-frame poses may be missing, but not next to samples at the very time
    # of a node (whether those then count is left open).
    wobble = truth and dim == 2 and rng.random() < 0.4  # the platform tilts; all data at the times of nodes
    missing = not imu and not wobble and rng.random() < 0.4
    loaded = {t: rng.random() < 0.3 for t in trajs}  # elements come with their numbers

    def sensors(t, a, b):
        """Data of trajectory t at some of the ticks a..b."""
        data = []
        for time in range(a, b + 1):
            if useodo[t] and (wobble or rng.random() < 0.8):
                data.append({"e": "Odom", "t": t, "time": time, "x": 0 if truth else 7000 // sc + pos(t, time) + nz()})
            if usefix[t] and (wobble or rng.random() < 0.8) and not (missing and time % 2 == 0):
                has = not missing or rng.random() < 0.75
                data.append({"e": "Fixed", "t": t, "time": time, "has": has, "x": 0 if truth else pos(t, time) - fixo[t] + nz()})
            if imu:
                data.append({"e": "Imu", "t": t, "time": time, "x": accx[t]})
        return data
    accx = {t: val(-100, 100) for t in trajs}
    idx = {t: 0 for t in trajs}
    sidx = {t: 0 for t in trajs}
    for _ in range(size):
        r = rng.random()
        t = rng.choice(trajs)
        if r < 0.5:
            step = 2 if missing else rng.choice([1, 2])
            prev = last[t]
            now = prev + step
            # Sensor data up to the node, or a bit beyond.
            until = now + (rng.random() < 0.5)
            if imu:
                until = now
            start = lastt.get(t, prev)
            ops += sensors(t, start, until)
            lastt[t] = max(start, until + 1)
            skip = loaded[t] and rng.random() < 0.3
            if skip:
                idx[t] += 1
            i = idx[t]
            idx[t] += 1
            last[t] = now
            ops.append({"e": "Node", "t": t, "i": i, "idx": i if loaded[t] else -1, "time": now, "off": t not in frozen,
                        "x": 0 if truth else pos(t, now) + val(-200 // sc, 200 // sc), "local": 0 if truth else 1000 // sc + pos(t, now) + nz()})
            nodes[(t, i)] = now
        elif r < 0.68 or not subs:
            skip = loaded[t] and rng.random() < 0.3
            if skip:
                sidx[t] += 1
            i = sidx[t]
            sidx[t] += 1
            # The least submap so far stays where it is: it is the truth, or it
            # becomes the reference of everything tied to it.
            least = all((t, i) < s for s in subs)
            subx[(t, i)] = val(-3000 // sc, 3000 // sc)
            ops.append({"e": "Submap", "t": t, "i": i, "ins": loaded[t], "off": t not in frozen and not (least and truth),
                        "x": 0 if truth else subx[(t, i)] + val(-200 // sc, 200 // sc)})
            subs[(t, i)] = True
        elif r < 0.74 and nodes and not wobble:
            n = rng.choice(sorted(nodes))
            # (PoseGraph never trims the node the next one follows)
            if n[1] != idx[n[0]] - 1:
                del nodes[n]
                cons = [c for c in cons if tuple(c["n"]) != n]
                ops.append({"e": "TrimNode", "t": n[0], "i": n[1]})
        elif r < 0.77 and len(subs) > 1:
            s = rng.choice(sorted(subs))
            if s[1] != sidx[s[0]] - 1:
                del subs[s]
                cons = [c for c in cons if tuple(c["s"]) != s]
                ops.append({"e": "TrimSubmap", "t": s[0], "i": s[1]})
        elif nodes:
            for _ in range(rng.randint(0, 2 + len(nodes))):
                n, s = rng.choice(sorted(nodes)), rng.choice(sorted(subs))
                if truth and any(tuple(c["n"]) == n and tuple(c["s"]) == s for c in cons):
                    continue
                cons.append({"s": list(s), "n": list(n), "inter": rng.random() < 0.4, "w": tr(), "wr": (wr() if not turn else rng.randint(1, 5)),
                             "z": 0 if truth else pos(n[0], nodes[n]) - subx[s] + nz()})
            for k in range(nl):
                for _ in range(rng.randint(0, 2)):
                    ot = rng.choice(trajs)
                    time = rng.randint(0, last[ot] + 1)
                    if wobble:
                        times = [x for n, x in nodes.items() if n[0] == ot]
                        if not times:
                            continue
                        time = rng.choice(times)
                    obs.append((k, {"t": ot, "time": time, "w": tr(), "wr": (wr() if not turn else rng.randint(1, 5)),
                                    "z": 0 if truth else lmx[k] - pos(ot, time) + nz()}))
            lm = [{"i": k, "frozen": lfrozen[k], "given": lgiven[k], "x": lmx[k], "obs": [o for kk, o in obs if kk == k]}
                  for k in range(nl)]
            if imu and any(t2 not in frozen and not any(o["e"] == "Imu" and o["t"] == t2 for o in ops) for t2, _ in nodes):
                continue
            ops.append({"e": "Solve", "cs": list(cons), "frozen": frozen, "fin": [x for x in trajs if rng.random() < 0.2],
                        "lm": lm, "times": 1 if truth else 2})
    return {"dim": dim, "fixz": fixz, "mode": mode, "turn": turn, "axis": axis, "wobble": wobble, "tolerant": truth and rng.random() < 0.3, "seed": rng.randint(1, 10 ** 9), "off": rng.choice([0.05, 0.2]), "w": ws, "ops": ops}


def run(ctx):
    rng = ctx.rng
    ctx.model("OptimizationMC", "SPECIFICATION Spec\nCONSTANTS MaxTime = 3\n MaxSamples = %d\n"
              "INVARIANTS Relative Grounded FrozenLess FrozenStill\nPROPERTIES TrimKeeps TrimAddsNothing\n" % ctx.scale(2, 4))
    exe = ctx.build("optimization_driver")
    sc = []
    for i in range(ctx.scale(1200, 12000)):
        dim, fixz = [(2, False), (3, True), (3, False)][i % 3]
        sc.append(build(rng, dim, "truth" if i % 2 else "balance", fixz, rng.randint(4, ctx.scale(22, 40))))
    cfg = "SPECIFICATION Spec\nCONSTANTS Slack = 5\n"
    ctx.validate("OptimizationTrace", cfg, ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
