"""Constraint builders."""
INSTRUMENT = ["cartographer/mapping/internal/constraints/constraint_builder_2d.cc",
              "cartographer/mapping/internal/constraints/constraint_builder_3d.cc",
              "cartographer/common/task.cc", "cartographer/common/thread_pool.cc"]


def sched(rng):
    return {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([5, 20, 50]),
            "mem": rng.choice([0, 5, 20, 100]), "limit": 4000000, "d": rng.randint(1, 5), "len": rng.choice([100, 300, 1000])}


def scenario(rng, dim, pool, size):
    ops, node, nreq = [], 0, 0
    variant = {}
    pairs = set()
    twice = pool == "step" and rng.random() < .05
    for batch in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(0, 4)):
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                s = (rng.randrange(2), rng.randrange(2))
                # Submaps with one id are the same until their matcher is deleted.
                v = variant.setdefault(s, rng.randrange(4))
                rx, ry = rng.randrange(-5, 6), rng.randrange(-5, 6)
                kind = "local" if rng.random() < (.75 if dim == 2 else .9) else "global"
                if kind == "local" and rng.random() < .12:
                    rx = rng.choice([27, 29, 31, 33, 40])  # the distance limit
                    ry = 0
                n = (rng.randrange(2), node)
                if (s, n) in pairs:
                    continue
                pairs.add((s, n))
                ops.append(dict(o=kind, s=list(s), n=list(n), v=v, q=rng.choice([2, 2, 1, 0]) if rx < 20 else 2, rx=rx, ry=ry,
                                ox=rng.randrange(-2, 3) if rx < 20 else 0 if rx != 33 else -1))
                nreq += 1
                if pool == "step" and rng.random() < .3:
                    ops.append(dict(o="step", k=rng.randrange(50)))
                if rng.random() < .1:
                    ops.append(dict(o="num"))
            ops.append(dict(o="end"))
            node += 1
            if pool == "step":
                ops += [dict(o="step", k=rng.randrange(50)) for _ in range(rng.randrange(0, 3))]
            elif rng.random() < .2:
                ops.append(dict(o="num"))
        ops.append(dict(o="when"))
        if twice and batch == 0:
            ops.append(dict(o="when"))
        if rng.random() < .5:
            ops.append(dict(o="num"))
        ops.append(dict(o="wait", k=rng.randrange(1000)))
        if variant and rng.random() < .5:
            s = rng.choice(sorted(variant))
            ops.append(dict(o="delete", s=list(s)))
            del variant[s]
        ops.append(dict(o="num"))
    return dict(dim=dim, pool=pool, threads=rng.choice([1, 2, 3]), ratio4=rng.choice([4, 4, 4, 2, 1, 3]), twice=twice,
                log=rng.random() < .2, ops=ops, sched=sched(rng))


def replay(rng, h, dim):
    """A generated history of calls and tasks."""
    ops, node, pend = [], 0, False
    for x in h:
        if pend and x["o"] != "step":  # nothing is requested before the callback
            ops.append(dict(o="wait", k=rng.randrange(99)))
            pend = False
        pend = pend or x["o"] == "when"
        if x["o"] == "when" and ops and any(o["o"] == "local" for o in ops[max([i for i, o in enumerate(ops) if o["o"] == "end"], default=0):]):
            ops.append(dict(o="end"))
            node += 1
        if x["o"] == "local":
            ops.append(dict(o="local", s=[0, x["s"]], n=[0, node], v=x["s"], q=2 if x["hit"] else 0,
                            rx=40 if not x["near"] else rng.randrange(-4, 5), ry=0, ox=0))
        else:
            ops.append(x)
        node += x["o"] == "end"
    ops += [dict(o="wait", k=1), dict(o="end"), dict(o="when"), dict(o="wait", k=rng.randrange(99))]
    return dict(dim=dim, pool="step", threads=1, ratio4=rng.choice([2, 4]), twice=False, ops=ops, sched=sched(rng))


def run(ctx):
    ctx.model("ConstraintBuilderMC", "SPECIFICATION Spec\nINVARIANTS Counted Enforced\nPROPERTIES Called AllCounted\nCONSTANTS Ops=%d\nGen=FALSE\n"
              % ctx.scale(4, 6), timeout=800)
    h = ctx.generate("ConstraintBuilderMC", "SPECIFICATION Spec\nCONSTANTS Ops=%d\nGen=TRUE\n" % ctx.scale(5, 6))
    h = [x for x in h if any(y["o"] == "step" for y in x)]
    if len(h) > ctx.scale(250, 8000):
        h = ctx.rng.sample(h, ctx.scale(250, 8000))
    exe = ctx.build("constraint_builder_driver", sched=True, only=INSTRUMENT)
    sc = [scenario(ctx.rng, 2 + i % 2, "step" if i % 3 == 0 else "real", 0) for i in range(ctx.scale(900, 8000))]
    sc += [replay(ctx.rng, x, 2 + i % 2) for i, x in enumerate(h)]
    traces = ctx.drive(exe, sc, timeout=700)
    ctx.validate("ConstraintBuilderTrace", "SPECIFICATION Spec\nINVARIANTS Counted\n", traces,
                 rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
