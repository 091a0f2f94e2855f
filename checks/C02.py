"""BlockingQueue."""
CFG = "SPECIFICATION Spec\nINVARIANTS Bounded Fifo\n"


def scenarios(ctx):
    rng = ctx.rng
    out = []
    progs = [
        (1, [["push", "push"], ["pop", "pop"]]),
        (1, [["push", "push"], ["popT", "size"], ["pop"]]),
        (2, [["push", "pushT", "pushT"], ["wait"], ["pop", "pop", "popT"]]),
        (0, [["push", "wait"], ["push", "size"], ["pop", "pop"]]),
        (1, [["pushT"], ["pushT"], ["popT", "peekT", "pop"]]),
    ]
    n = 0
    def mk(ops):
        nonlocal n
        r = []
        for o in ops:
            n += 1
            r.append({"o": o, "v": n if o.startswith("push") else 0})
        return r
    for cap, th in progs:
        n = 0
        out.append({"cap": cap, "th": [mk(t) for t in th],
                    "sched": {"mode": "dfs", "bound": ctx.scale(3, 4), "max": ctx.scale(600, 20000)}})
    for i in range(ctx.scale(1500, 20000)):
        n = 0
        th = []
        for k in range(rng.randint(2, 4)):
            ops = []
            bias = rng.random()
            for j in range(rng.randint(1, 6)):
                if rng.random() < 0.25:
                    ops.append(rng.choice(["peek", "peekT", "size", "wait"]))
                elif rng.random() < bias:
                    ops.append(rng.choice(["push", "push", "pushT"]))
                else:
                    ops.append(rng.choice(["pop", "popT", "popT"]))
            th.append(mk(ops))
        # peeked pointers are only valid while nobody pops
        if any(o["o"] in ("pop", "popT") for t in th[1:] for o in t) or len(th) > 1:
            pops = [k for k, t in enumerate(th) if any(o["o"] in ("pop", "popT") for o in t)]
            for k, t in enumerate(th):
                if any(p != k for p in pops):
                    for o in t:
                        if o["o"] in ("peek", "peekT"):
                            o["o"] = "size"
        out.append({"cap": rng.choice([0, 1, 1, 2, 3]), "th": th,
                    "sched": {"mode": rng.choice(["random", "pct"]), "seed": rng.randrange(1 << 30),
                              "p": rng.choice([10, 40, 80]), "mem": rng.choice([0, 5, 20]),
                              "timeout_pct": rng.choice([0, 5, 30]),
                              "d": rng.randint(1, 5), "len": 60}})
    return out


def run(ctx):
    ctx.model("BlockingQueueMC", "BlockingQueueMC.cfg")
    # The queue is a template: its code is compiled with the driver.
    exe = ctx.build("blocking_queue_driver", sched=True, main_flags=["-fsanitize=thread", "-U__SANITIZE_THREAD__"])
    traces = ctx.drive(exe, scenarios(ctx))
    def rerun(t):
        return ctx.drive(exe, [dict(t["in"])])[0]
    ctx.validate("BlockingQueueTrace", CFG, traces, rerun=rerun)
