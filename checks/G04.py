"""Pose graph: consistency of nodes, submaps and constraints."""
import pose_graph_common as g


def run(ctx):
    g.model(ctx)
    exe = g.build(ctx)
    sc = []
    mix = dict(mixed=3, trim=1, init=2, lifecycle=1, queue=1, joined=1.5)
    for s in g.family(ctx, mix, ctx.scale(340, 4000), ctx.scale(14, 22)):
        for ops in s["clients"]:
            for o in ops:
                if o["o"] == "snap":  # look at what refers to each other
                    o["k"] = ctx.rng.sample(["cons", "nodes", "submaps", "subposes", "poses", "conn", "l2g"], 3)
        if ctx.rng.random() < .4:
            s["inter"] = "all"
        sc.append(s)
    # (nodes are not added to frozen trajectories when constraints are searched)
    sc = [s for s in sc if s["inter"] == "none" or not frozen_nodes(s)]
    sc += g.replays(ctx, g.histories(ctx, ctx.scale(4, 5), limit=ctx.scale(150, 6000)))
    g.validate(ctx, exe, sc)


def frozen_nodes(s):
    for ops in s["clients"]:
        fr = set()
        for o in ops:
            if o["o"] == "freeze":
                fr.add(o["t"])
            if o["o"] == "node" and o["t"] in fr:
                return True
    return False
