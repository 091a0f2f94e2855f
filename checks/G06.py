"""Pose graph: landmarks."""
import pose_graph_common as g


def corner(rng, dim):
    """Observations of trajectories with few nodes, or that go away."""
    N = lambda t, i: dict(o="node", t=t, x=i * 100 + t * 50, y=0, a=0, g=0, time=i * 100 + t)
    L = lambda t, i, k="A": dict(o="lm", t=t, time=i * 100 + t, id=k, lx=500, ly=500, x=i * 100 + t * 50, y=0, a=0, g=0)
    end, snap = dict(o="final"), dict(o="snap", k=["states", "nodes", "lm", "lmposes"])
    head = [N(0, i) for i in range(rng.randrange(0, 5))]
    body = rng.choice([
        [N(1, 0), N(1, 1), L(1, 1), N(1, 2), dict(o="finish", t=1), end, dict(o="delete", t=1), end, snap, end, snap],
        [N(1, 0), L(1, 0), end, snap],
        [N(1, 0), L(1, 0), end, snap, N(1, 1), L(1, 1), end, snap],
        [N(1, 0), N(1, 1), L(1, 1), dict(o="finish", t=1), dict(o="delete", t=1), end, snap, N(0, 7), L(0, 7), N(0, 8), end, snap],
        [N(1, 0), N(1, 1), L(1, 1), L(1, 1, "B"), end, snap, dict(o="setlm", id="B", x=500, y=500, a=0, frozen=True), N(1, 2),
         L(1, 2, "B"), end, snap],
        [dict(o="setlm", id="A", x=500, y=500, a=0, frozen=rng.random() < .5), snap, end, snap, N(1, 0), N(1, 1), L(1, 1), end, snap],
        [dict(o="trim", t=1, n=2)] + [x for i in range(7) for x in ([N(1, i)] + ([L(1, i)] if i in (1, 2) else []))] + [end, snap, end, snap],
        # A pose given after the observing trajectory is gone stays.
        [N(1, 0), N(1, 1), L(1, 1), N(1, 2), dict(o="finish", t=1), end, dict(o="delete", t=1), end,
         dict(o="setlm", id="A", x=100, y=700, a=0, frozen=rng.random() < .5), snap, N(0, 8), end, snap, N(0, 9), end, snap],
    ])
    s = g.base(rng, dim, "none", clients=[head + body], landmarks={"A": [500, 500, 0], "B": [500, 500, 0]})
    s["sched"] = g.sched(rng)
    return s


def run(ctx):
    g.model(ctx)
    exe = g.build(ctx)
    sc = g.family(ctx, dict(landmark=6, mixed=2), ctx.scale(260, 4000), ctx.scale(14, 22))
    sc += [corner(ctx.rng, 2 + i % 2) for i in range(ctx.scale(120, 1000))]
    g.validate(ctx, exe, sc)
