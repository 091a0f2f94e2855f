"""Scenarios for the pose graphs (harness/pose_graph_driver.cc), checked
against spec/PoseGraphTrace.tla."""
import json

TRACE_CFG = "SPECIFICATION Spec\nINVARIANTS Consistent\n"
# Sources whose memory accesses are scheduling points (everything else of
# /repo is compiled as usual).
INSTRUMENT = ["cartographer/mapping/internal/2d/pose_graph_2d.cc",
              "cartographer/mapping/internal/3d/pose_graph_3d.cc",
              "cartographer/mapping/internal/constraints/constraint_builder_2d.cc",
              "cartographer/mapping/internal/constraints/constraint_builder_3d.cc",
              "cartographer/common/task.cc", "cartographer/common/thread_pool.cc",
              "cartographer/mapping/internal/trajectory_connectivity_state.cc",
              "cartographer/mapping/pose_graph_trimmer.cc"]
ALL = ["states", "nodes", "poses", "submaps", "subposes", "cons", "conn", "odom", "fixed", "imu", "lm", "lmposes", "l2g"]


def build(ctx):
    return ctx.build("pose_graph_driver", sched=True, only=INSTRUMENT, main_flags=["-DVSCHED"])


class Hist:
    """Builds one client's calls, keeping to the documented use."""

    def __init__(self, rng, inter="none", lms=None, dim=2):
        self.rng, self.inter, self.lms, self.dim = rng, inter, lms or {}, dim
        self.count = {}
        self.pose = {}
        self.state = {}
        self.trimmed = set()
        self.ops = []
        self.clock = {}
        self.start = {}
        self.inited = set()

    def node(self, t):
        i = self.count.get(t, 0)
        self.count[t] = i + 1
        if t not in self.pose:
            self.start[t] = self.pose[t] = (self.rng.randrange(-200, 200), self.rng.randrange(-200, 200), 0)
        else:
            x, y, a = self.pose[t]
            self.pose[t] = (x + self.rng.choice([0, 60, 100, 150]), y + self.rng.choice([-60, 0, 70]),
                            self.rng.choice([0, 50, -100, 200]))
        self.clock[t] = self.clock.get(t, t) + 40
        x, y, a = self.pose[t]
        self.ops.append(dict(o="node", t=t, x=x, y=y, a=a, g=self.rng.randrange(3) if i else 0, time=self.clock[t]))
        self.state.setdefault(t, "ACTIVE")

    def sensor(self, t):
        k = self.rng.choice(["odom", "fixed", "imu"])
        self.ops.append(dict(o=k, t=t, x=0, y=0, a=0, time=self.clock.get(t, t) + self.rng.randrange(5)))
        if self.ops[-1]["time"] > self.clock.get(t, t):
            self.clock[t] = self.ops[-1]["time"]
        else:
            self.clock[t] = self.ops[-1]["time"] = self.clock.get(t, t) + 1

    def landmark(self, t):
        """An observation between two nodes of t, taken at the later one."""
        nodes = [o for o in self.ops if o["o"] == "node" and o["t"] == t]
        if not nodes or not self.lms:
            return
        n = nodes[-1]
        i = self.rng.choice(sorted(self.lms))
        lx, ly, _ = self.lms[i]
        self.ops.append(dict(o="lm", t=t, time=n["time"], id=i, lx=lx, ly=ly, x=n["x"], y=n["y"], a=n["a"], g=n["g"]))

    def setlm(self):
        if self.lms:
            i = self.rng.choice(sorted(self.lms))
            x, y, a = self.lms[i]
            self.ops.append(dict(o="setlm", id=i, x=x, y=y, a=a, frozen=self.rng.random() < .5))

    def op(self, o, **k):
        self.ops.append(dict(o=o, **k))

    def snap(self, n=2):
        ks = [k for k in ALL if k != "lmposes" or self.lms]
        self.ops.append(dict(o="snap", k=self.rng.sample(ks, min(n, len(ks)))))

    def open(self, t):
        return self.state.get(t, "none") in ("none", "ACTIVE") or (self.state[t] == "FROZEN" and self.inter == "none")

    def random(self, steps, trajs, w, final=True):
        """w: weights of the operations."""
        rng = self.rng
        names = sorted(w)
        for _ in range(steps):
            o = rng.choices(names, [w[n] for n in names])[0]
            t = rng.choice(trajs)
            s = self.state.get(t, "none")
            if o == "node" and self.open(t):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    self.node(t)
            elif o == "sensor" and self.open(t) and s != "none":
                self.sensor(t)
            elif o == "lm" and self.open(t):
                self.landmark(t)
            elif o == "setlm":
                self.setlm()
            elif o == "snap":
                self.snap(rng.choice([1, 1, 2, 3]))
            elif o == "finish" and s in ("ACTIVE", "FROZEN", "none") and t not in self.trimmed:
                self.op("finish", t=t)
                self.state[t] = "FINISHED"
            elif o == "freeze" and s in ("ACTIVE", "FINISHED", "none") and t not in self.trimmed:
                self.op("freeze", t=t)
                self.state[t] = "FROZEN" if s != "FINISHED" else "FROZEN_DONE"
            elif o == "delete" and s in ("FINISHED", "FROZEN_DONE") and t not in self.trimmed:
                self.op("delete", t=t)
                self.state[t] = "DELETED"
            elif o == "trim" and s in ("ACTIVE", "none") and t not in self.trimmed:
                self.op("trim", t=t, n=rng.choice([2, 2, 3, 4]))
                self.trimmed.add(t)
            elif o == "trimfinish" and t in self.trimmed and s == "ACTIVE":
                self.op("finish", t=t)
                self.state[t] = "DELETED"
            elif o == "init" and s == "none" and t not in self.inited and not self.lms:
                to = [u for u in self.count if u not in self.trimmed and self.state.get(u) in ("ACTIVE", "FINISHED", "FROZEN")
                      and u not in self.inited and u != t]
                if to:
                    self.op("init", t=t, to=rng.choice(to), x=rng.randrange(-300, 300), y=rng.randrange(-300, 300),
                            a=0, time=rng.choice([0, 0, 0, -20000]))
                    self.inited.add(t)
                    for u in to:
                        self.trimmed.discard(u)
            elif o == "final" and final:
                self.op("final")
            elif o == "join" and s == "none":
                # A new trajectory next to one that is there.
                to = [u for u in self.count if u not in self.trimmed and self.state.get(u) in ("ACTIVE", "FINISHED")]
                if to:
                    self.op("final")
                    self.op("init", t=t, to=rng.choice(to), x=rng.randrange(-300, 300), y=rng.randrange(-300, 300),
                            a=0, time=rng.choice([0, 0, -20000]))
                    self.node(t)
                    self.op("final")
        return self


def base(rng, dim, inter, **k):
    d = dict(dim=dim, threads=rng.choice([1, 2, 3]), every=rng.choice([0, 1, 2, 3, 5]), nrd=rng.choice([1, 2, 2, 3]),
             inter=inter)
    d.update(k)
    return d


def sched(rng):
    return {"mode": rng.choice(["random", "random", "pct"]), "seed": rng.randrange(1 << 30), "p": rng.choice([5, 20, 50]),
            "mem": rng.choice([0, 0, 5, 20, 100]), "limit": 4000000, "d": rng.randint(1, 5), "len": rng.choice([200, 1000, 4000])}


def lms(rng):
    return {"L%d" % i: [rng.randrange(-500, 1500), rng.randrange(-800, 800), 0] for i in range(rng.choice([1, 2]))}


W = dict(node=8, sensor=2, snap=4, final=.5)
FAMILIES = {
    "queue": dict(W, final=1.2),
    "lifecycle": dict(W, finish=1, freeze=1, delete=1.2),
    "trim": dict(W, trim=1, trimfinish=.4, node=12),
    "landmark": dict(W, lm=3, setlm=1),
    "init": dict(W, init=2, finish=.5),
    "joined": dict(W, node=12, join=4, finish=1, delete=1.5, freeze=.3, trim=.7, trimfinish=.3),
    "mixed": dict(W, finish=.7, freeze=.5, delete=.8, trim=.5, trimfinish=.2, lm=1, setlm=.4),
}


def make(rng, family, dim, inter, steps=14, clients=None):
    w = FAMILIES[family]
    marks = lms(rng) if family in ("landmark", "mixed") else {}
    n = clients or rng.choice([1, 1, 2])
    s = base(rng, dim, inter)
    s["clients"] = []
    finaler = 0 if n == 1 else None
    for c in range(n):
        h = Hist(rng, inter, marks, dim)
        trajs = [0, 1, 2] if n == 1 else [[0, 1], [2, 3]][c]
        h.random(rng.randrange(steps // 2, steps + 1), trajs, w, final=(n == 1))
        s["clients"].append(h.ops)
    s["last"] = ([dict(o="final")] if rng.random() < .6 else []) + [dict(o="snap", k=[k for k in ALL if k != "lmposes" or marks])]
    if marks:
        s["landmarks"] = marks
    s["sched"] = sched(rng)
    return s


def compact(t):
    """Drops repeated acquisitions of a lock with nothing between them."""
    ev = []
    for e in t["ev"]:
        if e["e"] == "Lk" and ev and ev[-1] == e:
            continue
        ev.append(e)
    return dict(t, ev=ev)


def drive(ctx, exe, scen, **k):
    return [compact(t) for t in ctx.drive(exe, scen, **k)]


def validate(ctx, exe, scen, label=None):
    traces = drive(ctx, exe, scen, timeout=700)

    def rerun(t):
        return drive(ctx, exe, [dict(t["in"])])[0]
    ctx.validate("PoseGraphTrace", TRACE_CFG, traces, rerun=rerun, label=label)
    return traces


MC_INV = ("Referential ProblemShown IntraExact InterSound NodesAnchored DeletedGone FinishedSearched "
          "NothingRefused FullySearched")


def model(ctx, ops=None, everys="{0,2}"):
    ctx.model("PoseGraphMC", "SPECIFICATION Spec\nINVARIANTS %s\nPROPERTIES Forward Monotone\nCONSTANTS Ops=%d\n"
              "Everys=%s\nSearches={\"all\",\"none\"}\nGen=FALSE\n" % (MC_INV, ops or ctx.scale(4, 6), everys), timeout=800)


def histories(ctx, ops, keep=lambda h: True, limit=None):
    """Call histories generated from the specification."""
    h = ctx.generate("PoseGraphMC", "SPECIFICATION Spec\nCONSTANTS Ops=%d\nEverys={0}\nSearches={\"none\"}\nGen=TRUE\n" % ops)
    h = [x for x in h if keep(x)]
    if limit and len(h) > limit:
        h = ctx.rng.sample(h, limit)
    return h


def replay(rng, h, dim, inter, every):
    """The scenario of a generated history."""
    ops, count = [], {}
    for x in h:
        t = x["t"]
        if x["o"] == "node":
            k = count.get(t, 0)
            count[t] = k + 1
            ops.append(dict(o="node", t=t, x=100 * k + 40 * t, y=50 * t, a=0, g=k % 3, time=40 * (k + 1) + t))
        elif x["o"] == "odom":
            ops.append(dict(o="odom", t=t, x=0, y=0, a=0, time=40 * count.get(t, 0) + 10))
        else:
            ops.append({k: v for k, v in x.items() if not (x["o"] == "final" and k == "t")})
    ks = [k for k in ALL if k != "lmposes"]
    return dict(dim=dim, threads=rng.choice([1, 2]), every=every, nrd=1, inter=inter, clients=[ops],
                last=[dict(o="snap", k=rng.sample(ks, 3)), dict(o="final"), dict(o="snap", k=ks)], sched=sched(rng))


def replays(ctx, h):
    return [replay(ctx.rng, x, 2 + i % 2, ctx.rng.choice(["none", "all"]), ctx.rng.choice([0, 1, 2])) for i, x in enumerate(h)]


def bad(rng, dim):
    """Requests that must be refused: everything before them has settled."""
    h = Hist(rng)
    for _ in range(rng.randrange(1, 4)):
        h.node(0)
    h.node(1)
    n = lambda t: dict(o="node", t=t, x=0, y=0, a=0, g=0, time=900)
    o = lambda t: dict(o="odom", t=t, x=0, y=0, a=0, time=900)
    fin, fre, de, end = dict(o="finish", t=0), dict(o="freeze", t=0), dict(o="delete", t=0), dict(o="final")
    ops = rng.choice([
        [fin, end, n(0)], [fin, end, o(0)], [fin, o(0)], [fin, fin], [fin, end, fin], [fre, fre], [fre, end, fre],
        [fin, de, n(0)], [fin, end, de, end, n(0)], [de], [end, de], [fin, end, de, end, de], [fin, de, end, o(0)],
        [fre, end, n(0)], [fre, fin, end], [fin, end, de, end, fin, end],
        [dict(o="trim", t=0, n=2), fin, end, n(0)]])
    s = base(rng, dim, "none")
    s["clients"] = [h.ops + ops]
    s["last"] = [end, dict(o="snap", k=["states", "nodes", "submaps"])]
    s["sched"] = sched(rng)
    return s


def family(ctx, mix, n, steps=14):
    """mix: family -> weight; half 2D, half 3D."""
    out = []
    names = sorted(mix)
    for i in range(n):
        f = ctx.rng.choices(names, [mix[k] for k in names])[0]
        dim = 2 + i % 2
        inter = "all" if f == "joined" else ctx.rng.choice(["none", "none", "all"])
        out.append(make(ctx.rng, f, dim, inter, steps=steps + 8 * (f == "joined"), clients=1 if f == "joined" else None))
    return out
