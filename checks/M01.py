"""Id containers."""
CFG = "SPECIFICATION Spec\n"
MC = "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Gen = %s\nINVARIANTS NoReuse\n"


def random_ops(rng):
    """Mostly legal histories over up to 5 trajectories with gaps."""
    data, closed, ops = {}, set(), []
    div = rng.choice([1, 1, 2, 3])
    trajs = rng.sample(range(5), rng.randint(1, 4))
    ins = rng.random() < 0.5
    for k in range(rng.randint(2, 22)):
        t = rng.choice(trajs)
        d = data.setdefault(t, set())
        r = rng.random()
        if ins and r < 0.35:
            i = rng.randrange(9)
            if i in d and rng.random() < 0.98:
                continue
            ops.append({"o": "insert", "t": t, "i": i, "n": k + 1, "time": i // div})
            if i in d:
                break
            d.add(i)
            closed.add(t)
        elif d and r < 0.6:
            i = rng.choice(sorted(d)) if rng.random() < 0.99 else rng.randrange(9)
            ops.append({"o": "trim", "t": t, "i": i, "n": 0, "time": 0})
            if i not in d:
                break
            if i == max(d):
                closed.add(t)
            d.remove(i)
            if not d:
                closed.discard(t)
        elif d and r < 0.7:
            i = rng.choice(sorted(d))
            ops.append({"o": "set", "t": t, "i": i, "n": k + 1, "time": i // div})
        else:
            i = max(d) + 1 if d else 0
            if i > 8 or (t in closed and rng.random() < 0.9):
                continue
            ops.append({"o": "append", "t": t, "i": i, "n": k + 1, "time": i // div})
            if t in closed:
                break
            d.add(i)
    return ops


def run(ctx):
    hs = ctx.generate("IdMapMC", MC % (ctx.scale(4, 5), "TRUE"))
    rng = ctx.rng
    if ctx.quick:
        hs = rng.sample(hs, min(len(hs), 2500))
    sc = [{"ops": h, "obs": "end", "type": rng.choice(["node", "submap"])} for h in hs]
    for _ in range(ctx.scale(1500, 20000)):
        sc.append({"ops": random_ops(rng), "obs": rng.choice(["all", "end", "end"]), "type": rng.choice(["node", "submap"])})
    exe = ctx.build("id_map_driver")
    traces = ctx.drive(exe, sc)
    ctx.validate("IdMapTrace", CFG, traces, rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
