"""Random pipelines and point streams, for I02 and I03."""
TRIPLES = [(3, 4, 0), (4, 3, 0), (0, 3, 4), (4, 0, 3), (6, 8, 0), (5, 12, 0), (0, 12, 5)]


def stage(rng, k):
    if k == "frame":
        f = rng.sample(["a", "b", "c", "d"], rng.randint(1, 3))
        return dict(k=k, keep=f, drop=[]) if rng.random() < .5 else dict(k=k, keep=[], drop=f)
    if k == "range":
        lo = rng.choice([0, 4, 8, 20])
        return dict(k=k, min=lo, max=lo + rng.choice([0, 12, 32]))
    if k == "vert":
        lo = rng.choice([-16, -4, 0, 3])
        return dict(k=k, min=lo, max=lo + rng.choice([0, 4, 20]))
    if k == "ratio":
        return dict(k=k, a=rng.randint(1, 7))
    if k == "color":
        return dict(k=k, frame=rng.choice("abc"), c=[rng.randrange(256) for _ in range(3)])
    if k == "gray":
        return dict(k=k, frame=rng.choice(["", "a", "b"]), min=rng.choice([0, 10]))
    if k == "outlier":
        return dict(k=k, lim=rng.choice([1, 2, 3, 6, 6, 12]))
    if k == "restart":
        return dict(k=k, n=rng.randint(1, 2))
    return dict(k=k)


def point(rng, org):
    m = rng.random()
    if m < .1:
        return list(org)
    if m < .6:
        a = rng.randrange(3)
        d = [0, 0, 0]
        d[a] = rng.choice([-1, 1]) * rng.randint(1, 9)
    else:
        d = [x * rng.choice([-1, 1]) for x in rng.choice(TRIPLES)]
    return [o + 4 * x for o, x in zip(org, d)]


def batch(rng, i, ints, cols):
    org = [4 * rng.randint(-2, 2) for _ in range(3)]
    n = rng.choice([0, 1, 2, 3, 5, 9])
    return dict(frame=rng.choice("abcd"), org=org, traj=rng.randrange(3), time=1000 + i, pts=[point(rng, org) for _ in range(n)],
                ints=[rng.randrange(300) for _ in range(n)] if ints else [],
                cols=[[rng.randrange(256) for _ in range(3)] for _ in range(n)] if cols else [])


def scenario(rng, kinds, n, mixed=.15):
    pipe = [stage(rng, k) for k in (rng.choice(kinds) for _ in range(n))]
    ints, cols = rng.random() < .6, rng.random() < .6
    mix = rng.random() < mixed
    batches = []
    for i in range(rng.choice([0, 1, 2, 4, 7])):
        if mix:
            ints, cols = rng.random() < .6, rng.random() < .6
        batches.append(batch(rng, i, ints, cols))
    return dict(pipe=pipe, batches=batches)
