"""Proto streams: all cut points, damage, deserialization order."""


def msgs(rng, n, big=False):
    return [[rng.choice(["zero", "text", "random", "ff"]), rng.choice([0, 1, 5, 30, 200] + ([5000, 70000] if big else [])), i + 1]
            for i in range(n)]


def dedup(ms):  # at most one empty message, contents tell messages apart
    seen = False
    for m in ms:
        if m[1] == 0:
            if seen:
                m[1] = 3
            seen = True
    return ms


def run(ctx):
    rng = ctx.rng
    ctx.model("ProtoStreamMC", "SPECIFICATION Spec\nCONSTANTS MaxMsgs = %d\nLens = {1, 3}\nGen = FALSE\nINVARIANTS Prefix Complete NoneLost\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % ctx.scale(2, 3))
    exe = ctx.build("proto_stream_driver")
    sc = []
    for n in range(0, 5):
        ms = dedup(msgs(rng, n))
        sc.append({"k": "stream", "msgs": ms, "reads": [[-1, -1, 0], [-1, -1, 0]]})
        for c in range(8):
            sc.append({"k": "stream", "msgs": ms, "reads": [[c, -1, 0]]})
            sc.append({"k": "stream", "msgs": ms, "reads": [[-1, c, rng.choice([1, 64, 255])]]})
    # every cut of small streams
    for _ in range(ctx.scale(4, 20)):
        ms = dedup(msgs(rng, rng.randint(1, 4)))
        cuts = [[c, -1, 0] for c in range(8, 600)]
        for i in range(0, len(cuts), 60):
            sc.append({"k": "stream", "msgs": ms, "reads": cuts[i:i + 60]})
    # damage: every byte of a stream, one per run where reading may abort
    for _ in range(ctx.scale(3, 25)):
        ms = dedup(msgs(rng, 3))
        for p in range(8, 8 + 3 * 60):
            sc.append({"k": "stream", "msgs": ms, "reads": [[-1, p, rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])]]})
    for _ in range(ctx.scale(40, 400)):
        ms = dedup(msgs(rng, rng.randint(1, 8), big=True))
        sc.append({"k": "stream", "msgs": ms, "reads": [[-1, -1, 0]] + [[rng.randrange(8, 80000), -1, 0] for _ in range(10)]})
        sc.append({"k": "stream", "msgs": ms, "reads": [[rng.choice([-1, rng.randrange(8, 80000)]), rng.randrange(8, 1 << 30), rng.randrange(1, 256)]]})
    for n in range(0, 5):
        sc.append({"k": "full", "msgs": msgs(rng, n, big=True)})
    for _ in range(ctx.scale(150, 1500)):
        t = rng.randint(0, 3)
        parts = [["header", rng.choice([2, 2, 2, 1, 1, 0, 3, 4])], ["graph", t], ["options", t if rng.random() < .7 else rng.randint(0, 3)]]
        parts += [["node", rng.randrange(50)] for _ in range(rng.randint(0, 4))]
        m = rng.random()
        if m < .2:
            del parts[rng.randrange(len(parts)):]
        elif m < .4:
            del parts[rng.randrange(len(parts))]
        elif m < .5 and len(parts) > 1:
            i = rng.randrange(len(parts) - 1)
            parts[i], parts[i + 1] = parts[i + 1], parts[i]
        # a header read as something else may parse: keep it first
        if any(p[0] == "header" for p in parts[1:]) or (parts and parts[0][0] != "header"):
            parts = [p for p in parts if p[0] != "header"]
            parts.insert(0, ["header", 2])
        sc.append({"k": "deser", "parts": parts, "mem": rng.random() < .5})
    ctx.validate("ProtoStreamTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
