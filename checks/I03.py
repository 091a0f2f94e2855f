"""Point-cloud writers."""
from pipeline_gen import scenario

CFG = "SPECIFICATION Spec\n"


def run(ctx):
    ctx.model("PipelineMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Attached Bounded Writers LastWriter\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % ctx.scale(2, 3))
    exe = ctx.build("pipeline_driver")
    rng = ctx.rng
    sc = []
    for k in ["ply", "pcd", "xyz"]:
        sc += [scenario(rng, [k], 1, mixed=.3) for _ in range(ctx.scale(150, 1500))]
    sc += [scenario(rng, ["ply", "pcd", "xyz", "gray", "color", "range", "outlier"], rng.randint(2, 5)) for _ in range(ctx.scale(250, 3000))]
    for path in ["/dev/full", "/nonexistent/dir/file", "/proc/self/nope"]:
        for writes in ([], [1], [10, 10], [5000], [100000], [100000, 1], [1] * 20000 if not ctx.quick else [1] * 9000):
            for header in (False, True):
                if path == "/dev/full" and not writes and not header:
                    continue  # nothing to write
                sc.append(dict(fail=path, writes=writes, header=header, pipe=[], batches=[]))
    ctx.validate("PipelineTrace", CFG, ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
