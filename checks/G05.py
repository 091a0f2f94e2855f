"""Trimming."""
import pose_graph_common as g


def overlap(ctx, big=False):
    rng = ctx.rng
    # Disjoint blocks on a coarse lattice.
    blocks = []
    for b in range(rng.randrange(3, 8)):
        blocks.append([b * 12 - 30, rng.choice([0, 40, -25]), rng.randrange(1, 9), rng.randrange(1, 9)])
    if big:
        blocks.append([200, 0, 256, 256])
        blocks.append([500, 0, rng.choice([256, 300]), rng.choice([256, 260])])
    s = dict(res4=rng.choice([1, 2, 4, 8]), blocks=blocks, weight=[b[2] * b[3] for b in blocks], fresh=rng.choice([1, 1, 2, 3]),
             min_cells=rng.choice([1, 5, 20, 40, 80]) if not big else rng.choice([1, 100, 1000, 65600, 66000]),
             added=rng.choice([0, 0, 1, 2, 3]), steps=[])
    nsub, nnode, clock = {}, {}, list(range(1, 400))
    rng.shuffle(clock)
    for _ in range(rng.randrange(1, 5)):
        st = dict(submaps=[], nodes=[], cons=[])
        for _ in range(rng.randrange(1, 5)):
            t = rng.randrange(3)
            i = nsub.get(t, 0)
            nsub[t] = i + 1
            bl = sorted(rng.sample(range(len(blocks)), rng.randrange(0 if not big else 1, min(5, len(blocks)) + 1)))
            st["submaps"].append(dict(t=t, i=i, blocks=bl, fin=rng.random() < .9, dx=rng.randrange(-20, 20),
                                      dy=rng.randrange(-20, 20), ox=rng.randrange(-9, 9), oy=rng.randrange(-9, 9),
                                      pad=rng.randrange(0, 3)))
            # Nodes of the submap; times need not grow with their ids.
            if rng.random() < .95:
                for _ in range(rng.randrange(1, 4)):
                    k = nnode.get(t, 0)
                    nnode[t] = k + 1
                    if rng.random() < .97:
                        st["nodes"].append([t, k, clock.pop()])
                    st["cons"].append([t, i, t, k, 0])
            if nnode:
                u = rng.choice(sorted(nnode))
                st["cons"].append([t, i, u, rng.randrange(nnode[u]), 1])
        rng.shuffle(st["cons"])
        s["steps"].append(st)
    return s


def run(ctx):
    g.model(ctx)
    exe = g.build(ctx)
    sc = g.family(ctx, dict(trim=6, mixed=2, lifecycle=1, joined=3), ctx.scale(280, 4000), ctx.scale(16, 24))
    sc += g.replays(ctx, g.histories(ctx, ctx.scale(5, 6), lambda h: any(x["o"] in ("trim", "delete") for x in h), ctx.scale(200, 6000)))
    g.validate(ctx, exe, sc)
    ov = ctx.build("overlap_trimmer_driver")
    sc = [overlap(ctx) for _ in range(ctx.scale(500, 6000))] + [overlap(ctx, True) for _ in range(ctx.scale(24, 200))]
    traces = ctx.drive(ov, sc)
    ctx.validate("OverlapTrimmerTrace", "SPECIFICATION Spec\n", traces, rerun=lambda t: ctx.drive(ov, [dict(t["in"])])[0])
