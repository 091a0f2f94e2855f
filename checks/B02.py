"""Saving and loading maps."""
NONE = {"to": -1, "t": 0, "x": 0}


class Live:
    """Random building of a map by live trajectories."""

    def __init__(self, rng, dim):
        self.rng, self.dim, self.now, self.n, self.alive, self.closed = rng, dim, 1, 0, {}, set()
        self.first = None  # trajectory and time of a node
        self.frozen, self.seen = set(), set()

    def tick(self):
        self.now += self.rng.choice([1, 1, 2])
        return self.now

    def data(self, t, s):
        rng = self.rng
        op = {"op": "Data", "tr": t, "s": s, "t": self.tick()}
        if s == "o0":
            a = self.alive[t]
            a["p"] = [a["p"][0] + rng.randint(-12, 12), a["p"][1] + rng.randint(-12, 12), a["p"][2] + rng.randint(-6, 6)]
            op["p"] = list(a["p"])
        if s == "r0":
            # a node is certain once the collator has passed the cloud on
            a = self.alive[t]
            a["clouds"].append(self.now)
            if self.first is None and "o0" not in a["ss"] and not a["trim"] and len(a["clouds"]) >= (3 if self.dim == 3 else 1):
                self.first = (t, a["clouds"][0])
        return op

    def round(self, t):
        """One message of every sensor, the clouds last."""
        ss = [s for s in self.alive[t]["ss"] if s != "r0"]
        self.rng.shuffle(ss)
        out = [self.data(t, s) for s in ss if s == "i0" or self.rng.random() < .8]
        if "r0" in self.alive[t]["ss"]:
            out.append(self.data(t, "r0"))
            self.seen.add(t)
        return out

    def new(self):
        rng = self.rng
        local = rng.random() < .85
        imu = local and self.dim == 3
        ss = (["r0"] if local else []) + (["i0"] if imu or rng.random() < .3 and not local else [])
        ss += [s for s in ["o0", "f0", "l0"] if rng.random() < .5]
        ss = ss or ["o0"]
        init = NONE
        if self.first and self.first[0] in self.alive and rng.random() < .4:
            init = {"to": self.first[0], "t": self.first[1], "x": rng.randint(-4, 9), "a": rng.randint(-100, 100)}
        t = {"sensors": ss, "local": local, "cl": False, "cf": False, "mf": rng.choice([0, 2]), "omf": rng.choice([-1, -1, 3]), "imu": imu,
             "nrd": rng.choice([1, 1, 2, 3]), "num": 1, "trim": rng.choice([0, 0, 0, 0, 2, 3]), "init": init}
        self.alive[self.n] = {"ss": ss, "p": [0, 0, 0], "clouds": [], "trim": t["trim"]}
        self.n += 1
        return [{"op": "Traj", "t": t}]

    def ops(self, length):
        rng, out = self.rng, []
        while len(out) < length:
            r = rng.random()
            if not self.alive or (r < .12 and len(self.alive) < 3):
                out += self.new()
            elif r < .9:
                out += self.round(rng.choice(list(self.alive)))
            elif r < .97:
                t = rng.choice(list(self.alive))
                out.append({"op": "Finish", "tr": t})
                if not self.alive[t]["trim"]:
                    self.closed.add(t)
                if self.first and self.first[0] == t:
                    self.first = None
                del self.alive[t]
            elif self.closed:
                t = rng.choice(sorted(self.closed))
                if rng.random() < .5 and t not in self.frozen:
                    if t in self.seen:
                        out.append({"op": "Freeze", "tr": t})
                        self.frozen.add(t)
                else:
                    out.append({"op": "Delete", "tr": t})
                    self.closed.discard(t)
        return out


def scenario(rng):
    dim = rng.choice([2, 2, 3])
    c = {"dim": dim, "every": rng.choice([0, 0, 3]), "bytraj": True, "threads": rng.choice([1, 2, 4]),
         "inter": rng.choice(["none", "all"]) if dim == 2 else rng.choice(["none", "none", "all"])}
    ops, live, slots, ids = [], {}, 0, {}
    pending = {}

    def world():
        w = len(live)
        live[w] = Live(rng, dim)
        ids[w] = None
        ops.append({"op": "New", "w": w})
        return w

    def build(w, n):
        ops.append({"op": "Live", "w": w, "ops": live[w].ops(n)})
        ops.append({"op": "Dump", "w": w})

    def save(w):
        nonlocal slots
        ops.append({"op": "Save", "w": w, "slot": slots, "inc": rng.random() < .5, "file": rng.random() < .3})
        slots += 1
        if rng.random() < .5:
            ops.append({"op": "Dump", "w": w})  # saving changes nothing
        if rng.random() < .5:
            ops.append({"op": "Tweak", "w": w, "slot": slots - 1, "seed": rng.randint(1, 10**6)})

    def load(w, s, frozen):
        ops.append({"op": "Load", "w": w, "slot": s, "frozen": frozen})
        ops.append({"op": "Dump", "w": w})
    build(world(), rng.choice([3, 8, 15, 25]))
    save(0)
    if rng.random() < .3:
        build(0, 6)
        save(0)
    w = world()
    frozen = rng.random() < .5
    for s in rng.sample(range(slots), rng.randint(1, slots)):
        load(w, s, frozen)
    if rng.random() < .5:
        save(w)
        load(world() if rng.random() < .6 and len(live) < 4 else w, slots - 1, rng.random() < .4)
    elif frozen and rng.random() < .7:
        ops.append({"op": "Remove", "w": w, "tr": 0})
        ops.append({"op": "Dump", "w": w})
        if rng.random() < .5 and slots < 4:
            save(w)
            load(world(), slots - 1, rng.random() < .5)
    return {"c": c, "ops": ops}


def run(ctx):
    rng = ctx.rng
    for data, n in [("TRUE", ctx.scale(2, 3)), ("FALSE", ctx.scale(3, 4))]:
        ctx.model("MapFileMC", "SPECIFICATION Spec\nCONSTANTS MaxTrajs = 2 MaxThings = %d Data = %s\n"
                  "INVARIANTS MapTied FileTied MapUnique RoundTrip Frozen\nPROPERTY Additive\nCHECK_DEADLOCK FALSE\n" % (n, data))
    exe = ctx.build("map_builder_driver")
    sc = [scenario(rng) for _ in range(ctx.scale(500, 8000))]
    ctx.validate("MapFileTrace", "SPECIFICATION Spec\n", ctx.drive(exe, sc), rerun=lambda t: ctx.drive(exe, [dict(t["in"])])[0])
