"""Merging of range sensors."""
SHAPE = {1: [0], 2: [-2, 0], 3: [-3, -1], 4: [-1, 0, 0], 5: []}


def cfg(n, depth, dts, shapes, gen):
    j = lambda x: ",".join(map(str, x))
    return ("SPECIFICATION Spec\nCONSTANTS Sensors={%s}\nDepth=%d\nDts={%s}\nShapes={%s}\nGen=%s\n" %
            (j(range(n)), depth, j(dts), j(shapes), "TRUE" if gen else "FALSE") +
            ("" if gen else "INVARIANTS Once InInterval Passing\nPROPERTIES Complete Monotone NoLoss\n"))


def rand(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    ops, now = [], rng.randrange(100)
    rate = [rng.choice([1, 2, 5]) for _ in range(n)]
    span = rng.choice([0, 3, 10, 40])
    for _ in range(rng.randrange(3, 40)):
        now += rng.choice([0, 0, 1, 1, 2, 5, 20])
        s = rng.choices(range(n), rate)[0]
        t = sorted(-rng.randrange(span + 1) for _ in range(rng.choice([0, 1, 2, 3, 6])))
        if t and rng.random() < .6:
            t[-1] = 0
        ops.append(dict(s=s, time=now, t=t, ints=rng.choice([0, 99, 99, 1])))
    if rng.random() < .03:
        ops.append(dict(s=n, time=now, t=[0], ints=0))
    return dict(n=n, ops=ops)


def run(ctx):
    ctx.model("RangeCollatorMC", cfg(3, ctx.scale(4, 5), [0, 1], [1, 2, 3], False))
    ctx.model("RangeCollatorMC", cfg(1, ctx.scale(4, 5), [0, 1, 2], [1, 2, 4, 5], False))
    exe = ctx.build("range_collator_driver")
    sc = []
    for n, depth, dts, shapes in ctx.scale([(2, 5, [0, 1], [2, 3]), (2, 4, [1, 2], [1, 4, 5]), (3, 5, [1], [1, 2])],
                                           [(2, 6, [0, 1], [2, 3]), (2, 5, [0, 1, 2], [1, 4, 5]), (3, 6, [1], [1, 2, 3])]):
        hs = ctx.generate("RangeCollatorMC", cfg(n, depth, dts, shapes, True))
        if len(hs) > ctx.scale(3000, 60000):
            hs = ctx.rng.sample(hs, ctx.scale(3000, 60000))
        sc += [dict(n=n, ops=[dict(s=x["s"], time=x["time"], t=SHAPE[x["k"]], ints=99 if i % 2 else 0) for i, x in enumerate(h)]) for h in hs]
    sc += [rand(ctx.rng) for _ in range(ctx.scale(4000, 60000))]
    traces = ctx.drive(exe, sc)
    ctx.validate("RangeCollatorTrace", "SPECIFICATION Spec\n", traces, rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
