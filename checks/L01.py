"""Configuration dictionaries: programs, includes, reads, options."""
import os, shutil

KEYS = ["alpha", "beta", "gamma", "delta", "_x1", "n2"]
TEXTS = ["", "a", "with space", 'quo"te', "back\\slash", "line\nbreak", "tab\t", "caf\u00e9", "return", "{}", "nil", "1a", "-", "%q", "--x", "]]"]


def num(milli):
    return ["n", milli, "%.14g" % (milli / 1000.0)]


def scalar(rng):
    r = rng.random()
    if r < .4:
        return num(rng.choice([0, 1000, -1000, 2000, 500, -500, 1, 999999, 123456789, 1000000, -2500, rng.randrange(-10**6, 10**6)]))
    if r < .45:
        return ["inf", rng.choice([-1, 1])]
    if r < .6:
        m = rng.choice([3000, -7000, 1500, 0])
        return ["s", "%.14g" % (m / 1000.0), True, m]
    if r < .8:
        return ["s", rng.choice(TEXTS), False, 0]
    return ["b", rng.random() < .5]


def lua_str(s):
    return '"' + "".join("\\%03d" % b for b in s.encode()) + '"'


def lua_val(v):
    if v[0] == "n":
        return "%.17g" % (v[1] / 1000.0)
    if v[0] == "inf":
        return "math.huge" if v[1] > 0 else "-math.huge"
    if v[0] == "s":
        return lua_str(v[1])
    if v[0] == "b":
        return "true" if v[1] else "false"
    return "nil"


def lua_expr(e):
    if e[0] == "v":
        return lua_val(e[1])
    if e[0] == "tab":
        return "{" + ", ".join([lua_expr(x) for x in e[1]] + ["%s = %s" % (k, lua_expr(x)) for k, x in zip(e[2], e[3])]) + "}"
    if e[0] == "ref":
        return ".".join(e[1])
    if e[0] == "choose":
        return "choose(" + ", ".join(map(lua_expr, e[1])) + ")"
    if e[0] == "read":
        return 'read "%s"' % e[1]
    if e[0] == "inc":
        return '(include "%s")' % e[1]


def lua_prog(p):
    out = []
    for s in p:
        if s[0] == "set":
            out.append(".".join(s[1]) + " = " + lua_expr(s[2]))
        elif s[0] == "do":
            out.append('include "%s"' % s[1])
        elif s[0] == "ret":
            out.append("return " + lua_expr(s[1]))
        elif s[0] == "err":
            out.append("local_undefined()")
    return "\n".join(out) + "\n"


def expr(rng, depth, files, refs):
    r = rng.random()
    if depth > 0 and r < .35:
        ks = rng.sample(KEYS, rng.randint(0, 4))
        arr = []
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            e = expr(rng, depth - 1, [], [])
            arr.append(e)
        return ["tab", arr, ks, [expr(rng, depth - 1, files, refs) for _ in ks]]
    if r < .42:
        return ["choose", [["v", ["b", rng.random() < .5]] if rng.random() < .93 else ["v", scalar(rng)],
                           expr(rng, depth - 1, [], refs), expr(rng, depth - 1, [], refs)][:3 if rng.random() < .97 else 2]]
    if r < .5 and refs:
        return ["ref", list(rng.choice(refs))]
    if r < .53 and files:
        return [rng.choice(["read", "inc"]), rng.choice(files)]
    return ["v", scalar(rng)]


def array(rng):
    kind = rng.choice(["n", "s", "t", "mix"])
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice("nst") if kind == "mix" else kind
        if k == "n":
            out.append(["v", num(rng.randrange(-5000, 5000))])
        elif k == "s":
            out.append(["v", ["s", rng.choice(TEXTS), False, 0]])
        else:
            ks = rng.sample(KEYS, rng.randint(0, 2))
            out.append(["tab", [], ks, [["v", scalar(rng)] for _ in ks]])
    return out


def program(rng, files, depth, top):
    refs, p = [], []
    for i in range(rng.randint(0, 4)):
        r = rng.random()
        if r < .3 and files:
            p.append(["do", rng.choice(files)])
        elif r < .34:
            p.append(["set", [rng.choice(KEYS), rng.choice(KEYS)], ["v", scalar(rng)]])
        else:
            g = rng.choice(["G1", "G2", "G3"])
            if refs and rng.random() < .4:
                p.append(["set", [g, rng.choice(KEYS)], expr(rng, depth - 1, files, refs)])
            else:
                ks = rng.sample(KEYS, rng.randint(1, 4))
                p.append(["set", [g], ["tab", [], ks, [expr(rng, depth - 1, files, refs) for _ in ks]]])
                # (whole tables are not shared: they may be changed later)
                refs = [x for x in refs if x[0] != g] + [[g, k] for k in ks]
    if top and rng.random() < .06:
        p.append(rng.choice([["err"], ["ret", ["v", num(1000)]]]))
    if top or rng.random() < .6:
        if top and refs and rng.random() < .5:
            p.append(["ret", ["ref", [rng.choice(refs)[0]]]])
        else:
            ks = rng.sample(KEYS, rng.randint(0, 5))
            p.append(["ret", ["tab", array(rng) if rng.random() < .3 else [], ks, [expr(rng, depth, files, refs) for _ in ks]]])
    return p


def value(files, prog, st):
    """The generator's own rough evaluation, to choose sensible reads."""
    inc = st.setdefault("#", set())

    def once(f):
        if id(f) in inc:
            return False
        inc.add(id(f))
        return True

    def ev(e):
        if e[0] == "v":
            return e[1]
        if e[0] == "tab":
            return ["t", [ev(x) for x in e[1]], dict((k, ev(x)) for k, x in zip(e[2], e[3]))]
        if e[0] == "ref":
            v = st
            for k in e[1]:
                v = v.get(k) if isinstance(v, dict) else (v[2].get(k) if v and v[0] == "t" else None)
                if v is None:
                    return ["nil"]
            return v
        if e[0] == "choose" and len(e[1]) == 3:
            c = ev(e[1][0])
            return ev(e[1][1 if c[1] else 2])
        if e[0] == "read":
            return ["s", "", False, 0]
        if e[0] == "inc":
            f = min((f for f in files if f["n"] == e[1]), key=lambda f: f["d"], default=None)
            return value(files, f["ast"], st) if f and once(f) else ["nil"]
        return ["nil"]
    for s in prog:
        if s[0] == "ret":
            return ev(s[1])
        if s[0] == "set":
            x = ev(s[2])
            if len(s[1]) == 1:
                st[s[1][0]] = x
            elif s[1][0] in st and st[s[1][0]][0] == "t":
                st[s[1][0]][2][s[1][1]] = x
        if s[0] == "do":
            f = min((f for f in files if f["n"] == s[1]), key=lambda f: f["d"], default=None)
            if f and once(f):
                value(files, f["ast"], st)
    return ["nil"]


def reads(rng, h, v, rc, ops, nxt, err):
    """Reads the table v through handle h, mostly as one should."""
    if v[0] != "t":
        return
    ks = list(v[2])
    rng.shuffle(ks)
    if rng.random() < .3:
        ops.append({"op": "keys", "h": h})
    if rng.random() < .3:
        ops.append({"op": "has", "h": h, "k": rng.choice(KEYS)})
    if rng.random() < .25:
        n = nxt[0]
        nxt[0] += 1
        ops.append({"op": "print", "h": h, "nh": n})
        if rng.random() < .8:
            reads(rng, n, v, False, ops, nxt, err)
            ops.append({"op": "close", "h": n})
    if v[1] and rng.random() < .9:
        kinds = {x[0] for x in v[1]}
        op = "aT" if kinds == {"t"} else "aS" if kinds <= {"s", "n"} and rng.random() < .5 else "aD"
        if op == "aD" and not kinds <= {"n", "inf"} and not err:
            op = None
        if op:
            n = nxt[0]
            nxt[0] += len(v[1])
            ops.append({"op": op, "h": h, "nh": n})
            if op == "aT":
                for i, x in enumerate(v[1]):
                    reads(rng, n + i, x, rc, ops, nxt, err)
                    ops.append({"op": "close", "h": n + i})
    for k in ks:
        x = v[2][k]
        if x[0] == "nil":
            continue
        op = {"n": rng.choice("DDIISN"), "inf": "D", "s": "S", "b": "B", "t": "T"}[x[0]]
        if x[0] == "s" and x[2] and rng.random() < .6:
            op = rng.choice("DIN")
        if op == "N" and x[0] != "t" and (x[1] if x[0] == "n" else x[3]) < 0 and not err:
            op = "I"
        if err and rng.random() < .1:
            op = rng.choice("SDINBT" if x[0] != "inf" else "DBT")
        if err and rng.random() < .07:
            continue
        n = nxt[0]
        nxt[0] += 1
        ops.append({"op": op, "h": h, "k": k, "nh": n})
        if op == "T":
            reads(rng, n, x, rc, ops, nxt, err)
            ops.append({"op": "close", "h": n})
        if (err and rng.random() < .05) or (not rc and rng.random() < .1):
            ops.append({"op": op, "h": h, "k": k, "nh": nxt[0]})
            nxt[0] += 1
    if err and rng.random() < .1:
        k = rng.choice(KEYS)
        ops.append({"op": rng.choice("DB" if v[2].get(k, [""])[0] == "inf" else "SDIB"), "h": h, "k": k, "nh": nxt[0]})
        nxt[0] += 1


def run(ctx):
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nGen = %s\nINVARIANTS Reported Typed\nCHECK_DEADLOCK FALSE\n"
    ctx.model("LuaDictMC", cfg % (ctx.scale(3, 4), "FALSE"))
    hists = ctx.generate("LuaDictMC", cfg % (3, "TRUE"))
    exe = ctx.build("lua_dict_driver")
    root = ctx.tmp + "/files"
    os.makedirs(root)
    sc = []
    base = [["ret", ["tab", [], ["a", "b", "c"], [["v", num(-1500)], ["v", ["s", "7", True, 7000]], ["v", ["b", True]]]]]]
    for h in hists:
        ops = [{"op": "load", "h": 1, "rc": True}] + [dict({"op": o, "h": 1}, **({"k": k} if k else {})) for o, k in h]
        sc.append({"k": "dict", "dirs": 0, "files": [], "main": base, "text": lua_prog(base), "ops": ops})
    for i in range(ctx.scale(1800, 40000)):
        nd = rng.randint(1, 3)
        names = ["f1.lua", "f2.lua", "f3.lua"][:rng.randint(0, 3)]
        files = []
        for j, n in enumerate(names):
            for d in rng.sample(range(1, nd + 1), rng.randint(1, nd)):
                # mostly acyclic: a file includes only later ones
                inner = names[j + 1:] if rng.random() < .93 else names
                p = program(rng, inner if rng.random() < .5 else [], 1, False)
                files.append({"d": d, "n": n, "ast": p, "text": lua_prog(p)})
        usable = names + (["none.lua"] if rng.random() < .03 else [])
        main = program(rng, usable, 2, True)
        rc = rng.random() < .6
        v = value(files, main, {})
        ops, nxt, err = [{"op": "load", "h": 1, "rc": rc}], [2], rng.random() < .4
        reads(rng, 1, v, rc, ops, nxt, err)
        ops.append({"op": "close", "h": 1})
        sc.append({"k": "dict", "dirs": nd, "files": files, "main": main, "text": lua_prog(main), "ops": ops})
    for i, s in enumerate(sc):
        s["root"] = "%s/%d" % (root, i)
    conf = os.environ.get("VERIF_REPO", "/repo") + "/configuration_files"
    extra = {"map": "MAP_BUILDER.pose_graph.overlapping_submaps_trimmer_2d = {fresh_submaps_count = 1, min_covered_area = 2.5, min_added_submaps_count = 5}",
             "trajectory": "TRAJECTORY_BUILDER.pure_localization_trimmer = {max_submaps_to_keep = 3}\n"
                           "TRAJECTORY_BUILDER.pose_graph_odometry_motion_filter = {max_time_seconds = 1.5, max_distance_meters = 2.5, max_angle_radians = 3.5}"}
    for i in range(ctx.scale(20, 200)):
        kind = rng.choice("23")
        for w in ("map", "trajectory"):
            x = (extra[w] if i % 2 else "") + ("\nMAP_BUILDER.use_trajectory_builder_%sd = true" % kind if w == "map" else "")
            sc.append({"k": "options", "which": w, "conf": conf, "extra": x, "seed": rng.randrange(1 << 30)})
    for b in (0, 1):
        sc.append({"k": "options", "which": "map", "conf": conf, "seed": 1, "both": b,
                   "extra": "MAP_BUILDER.use_trajectory_builder_2d = true\nMAP_BUILDER.use_trajectory_builder_3d = true" if b else ""})
    try:
        ctx.validate("LuaDictTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
    finally:
        shutil.rmtree(root, ignore_errors=True)
