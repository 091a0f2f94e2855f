"""ThreadPool / Task."""
import itertools

TRACE_CFG = "SPECIFICATION Spec\nINVARIANTS DepsRespected NothingAbandoned\n"


def scenarios(ctx):
    rng = ctx.rng
    out = []
    # All dependency graphs over three tasks, with preemption-bounded
    # exhaustive schedules.
    edges = [(1, 2), (1, 3), (2, 3)]
    for m in range(8):
        es = [e for i, e in enumerate(edges) if m >> i & 1]
        ops = [{"o": "task", "t": t, "deps": [a for a, b in es if b == t]} for t in (1, 2, 3)]
        for th in (1, 2):
            out.append({"threads": th, "callers": [ops],
                        "sched": {"mode": "dfs", "bound": ctx.scale(2, 3), "max": ctx.scale(150, 6000)}})
    # two callers, cross dependencies
    out.append({"threads": 2, "callers": [
        [{"o": "task", "t": 1, "deps": []}, {"o": "obs", "t": 2}, {"o": "task", "t": 3, "deps": [1, 2]}],
        [{"o": "task", "t": 2, "deps": [1]}, {"o": "obs", "t": 1}, {"o": "obs", "t": 3}]],
        "sched": {"mode": "dfs", "bound": 2, "max": ctx.scale(600, 20000)}})
    for i in range(ctx.scale(1200, 20000)):
        n = rng.randint(2, 9)
        ncall = rng.randint(1, 3)
        callers = [[] for _ in range(ncall)]
        bodies = {}
        for t in range(1, n + 1):
            deps = [d for d in range(1, t) if rng.random() < rng.choice([0.0, 0.3, 0.6])]
            op = {"o": "task", "t": t, "deps": deps}
            if rng.random() < 0.08:
                op["nowork"] = True
            if rng.random() < 0.1:
                op["null"] = True
            op["body"] = []
            bodies[t] = op
            dest = callers[rng.randrange(ncall)]
            parents = [p for p in range(1, t) if not bodies[p].get("nowork")]
            if parents and rng.random() < 0.25:
                dest = bodies[rng.choice(parents)]["body"]
            dest.append(op)
            if rng.random() < 0.4:
                callers[rng.randrange(ncall)].append({"o": "obs", "t": rng.randint(1, n)})
        mode = rng.choice(["random", "random", "pct"])
        sched = {"mode": mode, "seed": rng.randrange(1 << 30), "p": rng.choice([10, 40, 80]),
                 "mem": rng.choice([0, 0, 5, 30, 200]), "d": rng.randint(1, 5), "len": rng.choice([50, 200])}
        out.append({"threads": rng.randint(1, 3), "callers": callers, "sched": sched})
    return out


def run(ctx):
    ctx.model("ThreadPoolImpl", "ThreadPoolImpl.cfg" if ctx.quick else "ThreadPoolImpl.cfg")
    exe = ctx.build("threadpool", sched=True)
    traces = ctx.drive(exe, scenarios(ctx))
    ctx.notes["dfs"] = {"runs": sum(i["dfs_runs"] for i in ctx.last_info),
                        "complete": sum(1 for i in ctx.last_info if i["dfs_complete"])}
    def rerun(t):
        return ctx.drive(exe, [dict(t["in"])])[0]
    ctx.validate("ThreadPoolTrace", TRACE_CFG, traces, rerun=rerun)
