"""Active submaps."""


def scenario(rng, n, k, dim, grid):
    ops = []
    for i in range(k):
        # 3D: the fine grid ends at 8 m from the range data's origin
        ops.append(dict(o=[rng.randrange(-8, 9), rng.randrange(-8, 1)], far=dim == 3 and rng.random() < .3, bin=rng.randrange(4)))
    return dict(dim=dim, grid=grid, n=n, ops=ops)


def run(ctx):
    ctx.model("ActiveSubmapsMC", "SPECIFICATION Spec\nINVARIANTS AtMostTwo FinishedIffFull OldOnesFinished Half Covered\nPROPERTIES Frozen\n"
              "CONSTANTS MaxN=%d\nMaxK=%d\n" % (ctx.scale(6, 9), ctx.scale(26, 40)))
    exe = ctx.build("active_submaps_driver")
    sc = []
    for n in range(1, ctx.scale(9, 16)):
        for dim, grid in ((2, "probability"), (2, "tsdf"), (3, "")):
            for _ in range(ctx.scale(6, 30)):
                sc.append(scenario(ctx.rng, n, min(40, ctx.rng.randrange(n, 5 * n + 8)), dim, grid))
    traces = ctx.drive(exe, sc)
    ctx.validate("ActiveSubmapsTrace", "SPECIFICATION Spec\n", traces, rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
