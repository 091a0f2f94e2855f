"""Pose graph: lifecycle of trajectories."""
import pose_graph_common as g


def run(ctx):
    g.model(ctx)
    exe = g.build(ctx)
    sc = g.family(ctx, dict(lifecycle=6, mixed=2), ctx.scale(300, 4000), ctx.scale(14, 22))
    sc += [g.bad(ctx.rng, 2 + i % 2) for i in range(ctx.scale(120, 800))]
    sc += g.replays(ctx, g.histories(ctx, ctx.scale(4, 5), lambda h: any(x["o"] in ("finish", "freeze", "delete") for x in h),
                                     ctx.scale(150, 6000)))
    g.validate(ctx, exe, sc)
