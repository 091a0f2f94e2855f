"""Points-processing pipelines."""
from pipeline_gen import scenario

PLAIN = ["count", "frame", "range", "vert", "ratio", "color", "gray"]
CFG = "SPECIFICATION Spec\n"


def run(ctx):
    ctx.model("PipelineMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Attached Bounded Writers LastWriter\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % ctx.scale(2, 3))
    exe = ctx.build("pipeline_driver")
    rng = ctx.rng
    sc = []
    for k in PLAIN + ["outlier", "restart"]:
        sc += [scenario(rng, [k], 1) for _ in range(ctx.scale(40, 300))]
    sc += [scenario(rng, PLAIN + ["outlier", "restart"], rng.randint(0, 5)) for _ in range(ctx.scale(500, 6000))]
    sc += [scenario(rng, PLAIN + ["ply", "pcd", "xyz", "outlier"], rng.randint(2, 6)) for _ in range(ctx.scale(150, 1500))]
    ctx.validate("PipelineTrace", CFG, ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
