"""Pose graph: queue of work."""
import pose_graph_common as g


def run(ctx):
    ctx.model("PoseGraphQueue", "SPECIFICATION Spec\nINVARIANTS OneDrainer QueueOnIffBusy Fifo\nPROPERTIES AllDone Refines\n"
              "CONSTANTS Clients={1,2}\nPerClient=%d\n" % ctx.scale(3, 4))
    g.model(ctx)
    exe = g.build(ctx)
    sc = g.family(ctx, dict(queue=5, landmark=1, mixed=1, init=1), ctx.scale(320, 4000), ctx.scale(14, 22))
    sc += g.replays(ctx, g.histories(ctx, ctx.scale(4, 5), limit=ctx.scale(150, 6000)))
    g.validate(ctx, exe, sc)
