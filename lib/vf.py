"""Check framework: TLC runs, driver runs, batch trace validation, verdicts."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = vbuild.JOBS


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, summary, detail):
        super().__init__(summary)
        self.summary, self.detail = summary, detail


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = "No error has been found" in out
        m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|"
                      r"Temporal properties were violated|Deadlock reached|"
                      r"The first argument of Assert evaluated to FALSE|"
                      r"property (\w+) is violated", out)
        self.error = m.group(0) if m else None


class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.known = []
        self.assumptions = []
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.known_findings = load_known().get(pid, [])

    def scale(self, q, t):
        return q if self.quick else t

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=JOBS, timeout=600, extra=(), deadlock=False,
            heap="6g", count=True):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", module + ".cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
        r.stdout = re.sub(r'(?m)^(Parsing file|Semantic processing|Warning: Please run|Linting of).*\n', '', r.stdout)
        res = Tlc(r.stdout, r.returncode, time.time() - t)
        res.dir = d
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        return res

    def model(self, module, cfg, timeout=600, **kw):
        """Model-checks a specification. The specification is ours: an error
        here is an error of the check, never a violation by the code."""
        path = os.path.join(SPEC, cfg)
        text = open(path).read() if os.path.exists(path) else cfg
        r = self.tlc(module, text, timeout=timeout, **kw)
        if not r.ok:
            raise ToolError("model %s does not satisfy its properties:\n%s" % (module, r.out[-4000:]))
        self.log("model %s: %d distinct / %d generated states, depth %d, %.1fs" %
                 (module, r.distinct, r.generated, r.depth, r.wall))
        self.notes.setdefault("models", []).append(
            {"module": module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    def generate(self, module, cfg, timeout=600, extra=(), tag="GEN", **kw):
        """Runs TLC on a generator module which prints ToJson(history) per
        behaviour; returns the parsed behaviours."""
        path = os.path.join(SPEC, cfg)
        text = open(path).read() if os.path.exists(path) else cfg
        r = self.tlc(module, text, timeout=timeout, extra=extra, **kw)
        if r.error or ("Error:" in r.out and "Error: The behavior up to" not in r.out):
            raise ToolError("generator %s failed:\n%s" % (module, r.out[-4000:]))
        out = []
        pre = '<<"%s", ' % tag
        for line in r.out.splitlines():
            if line.startswith(pre):
                body = line[len(pre):].rstrip()
                if body.endswith(">>"):
                    body = body[:-2]
                out.append(json.loads(json.loads(body)))
        out.sort(key=lambda h: json.dumps(h, sort_keys=True))
        self.log("generated %d behaviours from %s (%d states, %.1fs)" % (len(out), module, r.distinct, r.wall))
        self.notes.setdefault("generated_behaviours", {})
        self.notes["generated_behaviours"][module] = self.notes["generated_behaviours"].get(module, 0) + len(out)
        return out

    # ------------------------------------------------------------ drivers
    def build(self, name, sched=False, **kw):
        """sched: build for schedule exploration (harness/vsched): lock
        operations replaced, memory accesses of /repo's code instrumented."""
        t = time.time()
        if sched:
            kw["repo_flags"] = list(kw.get("repo_flags") or []) + ["-fsanitize=thread", "-U__SANITIZE_THREAD__"]
            kw["extra"] = list(kw.get("extra", ())) + [
                VERIF + "/harness/vtsan.cc", VERIF + "/harness/vmutex.cc"]
        exe = vbuild.build(name, **kw)
        self.log("built %s (%.1fs)" % (name, time.time() - t))
        return exe

    def drive(self, exe, scenarios, jobs=JOBS, timeout=500, args=(), env=None):
        """Runs scenarios through the real code; returns recorded traces."""
        scenarios = list(scenarios)
        for i, s in enumerate(scenarios):
            s.setdefault("id", i)
        jobs = max(1, min(jobs, len(scenarios)))
        chunks = [scenarios[i::jobs] for i in range(jobs)]
        d = tempfile.mkdtemp(prefix="drv_", dir=self.tmp)
        procs = []
        e = dict(os.environ)
        e.update(env or {})
        for i, ch in enumerate(chunks):
            with open("%s/in%d" % (d, i), "w") as f:
                for s in ch:
                    f.write(json.dumps(s) + "\n")
            procs.append(subprocess.Popen([exe, "%s/in%d" % (d, i), "%s/out%d" % (d, i)] + list(args),
                                          cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                          text=True, env=e))
        traces, info = [], []
        deadline = time.time() + timeout
        for i, p in enumerate(procs):
            try:
                o, er = p.communicate(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                for q in procs:
                    q.kill()
                raise ToolError("driver timed out")
            if p.returncode:
                raise ToolError("driver failed rc=%d: %s" % (p.returncode, er[-2000:]))
            for line in o.splitlines():
                if line.startswith("{"):
                    info.append(json.loads(line))
            for line in open("%s/out%d" % (d, i)):
                traces.append(json.loads(line))
        shutil.rmtree(d, ignore_errors=True)
        self.log("recorded %d traces from the code" % len(traces))
        self.last_info = info
        return traces

    # ---------------------------------------------------- trace validation
    def validate(self, module, cfg, traces, rerun=None, timeout=600, keep_in=True, workers=JOBS,
                 label=None, dedup=True, heap="8g", invariant_names=()):
        """Validates recorded traces against specification module `module`.
        `rerun(trace)` re-executes a rejected trace's scenario; a rejection is
        reported only if it repeats."""
        seen, uniq = set(), []
        for t in traces:
            k = json.dumps([t["in"] if keep_in else None, t["ev"]], sort_keys=True)
            k = re.sub(r'"(id|sched)": ?(\d+|\{[^{}]*\})', "", k)
            if dedup and k in seen:
                continue
            seen.add(k)
            uniq.append(t)
        known_ids = {}
        todo = []
        for t in uniq:
            kf = self.match_known(t)
            (known_ids.setdefault(kf["id"], []).append(t) if kf else todo.append(t))
        acc, err = self._tlc_traces(module, cfg, todo, timeout, workers, heap)
        self.traces += len(todo)
        self.events += sum(len(t["ev"]) for t in todo)
        if todo and len(self.samples) < 3:
            t = min(todo, key=lambda t: -len(t["ev"]) if len(json.dumps(t)) < 1500 else 0)
            self.samples.append("%s: %s" % (label or module, json.dumps(t)[:1500]))
        # (when TLC had to stop early, only traces it decided are candidates)
        rejected = [t for i, t in enumerate(todo) if i not in acc and (err is None or i in err)]
        self.log("%s: %d traces (%d distinct), %d rejected" % (label or module, len(traces), len(todo), len(rejected)))
        for kid, ts in known_ids.items():
            # A known finding's histories must really be rejected, otherwise
            # they are ordinary accepted traces.
            a, _ = self._tlc_traces(module, cfg, ts, timeout, workers, heap)
            if len(a) < len(ts):
                kf = [k for k in self.known_findings if k["id"] == kid][0]
                if kid not in [k["id"] for k in self.known]:
                    self.known.append(kf)
        if not rejected:
            return
        rejected.sort(key=lambda t: len(t["ev"]))
        for t in rejected[:10]:
            again = t
            if rerun is not None:
                again = rerun(t)
                a, _ = self._tlc_traces(module, cfg, [again], timeout, 1, heap)
                if a:
                    self.log("rejection did not repeat; ignored: %s" % json.dumps(t)[:300])
                    continue
            where = self.diagnose(module, cfg, again, heap)
            raise Violation("trace rejected by %s: %s" % (module, where["summary"]),
                            {"module": module, "trace": again, "diagnosis": where,
                             "rejected": len(rejected), "of": len(todo)})
        raise ToolError("rejected traces did not repeat")

    def match_known(self, t):
        for k in self.known_findings:
            m = k.get("match")
            if m and match_sub(m, t) and match_sub(k.get("last", {}), t["ev"][-1]):
                return k
        return None

    def _tlc_traces(self, module, cfg, traces, timeout, workers, heap):
        """Returns the set of accepted indices."""
        accepted = set()
        if not traces:
            return accepted, None
        stopped, undecided = set(), False
        # Bound the size of one TLC run.
        CH = 4000
        for base in range(0, len(traces), CH):
            ch = traces[base:base + CH]
            todo = list(range(len(ch)))
            for attempt in range(6):
                if not todo:
                    break
                fn = os.path.join(self.tmp, "traces_%d_%d.ndjson" % (base, attempt))
                with open(fn, "w") as f:
                    for i in todo:
                        t = ch[i]
                        f.write(json.dumps({"in": t["in"], "ev": t["ev"]}) + "\n")
                r = self.tlc(module, cfg, env={"TRACES": fn}, timeout=timeout, workers=workers, heap=heap)
                os.unlink(fn)
                for m in re.finditer(r'<<"ACCEPT", (\d+)>>', r.out):
                    accepted.add(base + todo[int(m.group(1)) - 1])
                if r.ok:
                    todo = []
                    break
                # An invariant failed (or an expression of the trace could not
                # be evaluated) on one trace: that trace is rejected, the
                # others are validated without it.
                m = re.findall(r"^/\\ tid = (\d+)|^tid = (\d+)", r.out, re.M)
                if not m:
                    raise ToolError("TLC failed validating traces with %s:\n%s" % (module, r.out[-5000:]))
                bad = int(m[-1][0] or m[-1][1]) - 1
                self.log("TLC stopped on trace %d: %s" % (
                    base + todo[bad], r.error or " ".join(re.findall(r"Error: .*(?:\n.*){0,2}", r.out))[:400]))
                stopped.add(base + todo[bad])
                accepted.discard(base + todo[bad])
                todo = [x for k, x in enumerate(todo) if k != bad and (base + x) not in accepted]
            else:
                undecided = bool(todo)
            if undecided:
                break
        return accepted, (stopped if undecided else None)

    def diagnose(self, module, cfg, trace, heap="4g"):
        """The first event that no behaviour of the specification explains:
        found by bisection over the prefixes of the trace."""
        fn = os.path.join(self.tmp, "diag.ndjson")

        def run(k):
            with open(fn, "w") as f:
                f.write(json.dumps({"in": trace["in"], "ev": trace["ev"][:k]}) + "\n")
            r = self.tlc(module, cfg, env={"TRACES": fn}, workers=1, heap=heap, count=False)
            return r.ok and '<<"ACCEPT", 1>>' in r.out, r
        lo, hi, bad = 0, len(trace["ev"]), None
        try:
            while lo < hi:
                mid = (lo + hi) // 2
                ok, r = run(mid)
                if ok:
                    lo = mid + 1
                else:
                    hi, bad = mid, r
            l = lo  # shortest rejected prefix
            if bad is None:
                bad = run(l)[1]
        except ToolError as e:
            return {"summary": "not diagnosed: %s" % str(e)[:200], "event_index": 0, "event": None, "tlc_tail": ""}
        ev = trace["ev"][l - 1] if 0 < l <= len(trace["ev"]) else None
        if bad.error and "Invariant" in bad.error:
            summ = "%s after event %d: %s" % (bad.error, l, json.dumps(ev)[:300])
        else:
            summ = "event %d of %d not allowed: %s" % (l, len(trace["ev"]), json.dumps(ev)[:400])
        return {"summary": summ, "event_index": l, "event": ev, "tlc_tail": bad.out[-3000:]}

    # ------------------------------------------------------------- results
    def evidence(self, violations):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = {"states": max(1, self.states), "transitions": max(1, self.transitions),
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples[:3] or ["(none)"]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        tmp = VERIF + "/evidence/%s.json.tmp" % self.pid
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.pid)


def match_sub(m, t):
    """m is a structural pattern: dicts match on their keys, lists exactly."""
    if isinstance(m, dict):
        return isinstance(t, dict) and all(k in t and match_sub(v, t[k]) for k, v in m.items())
    if isinstance(m, list):
        return isinstance(t, list) and len(m) == len(t) and all(match_sub(a, b) for a, b in zip(m, t))
    return m == t


def load_known():
    out = {}
    p = VERIF + "/known/findings.json"
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k.get("status") == "known":
                out.setdefault(k["property"], []).append(k)
    return out


def run_check(pid, fn, tier, seed, level="model_checking"):
    ctx = Ctx(pid, tier, seed, level)
    try:
        fn(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ctx.evidence(0)
        ctx.log("OK: states=%d transitions=%d traces=%d" % (ctx.states, ctx.transitions, ctx.traces))
        return 0
    except Violation as v:
        os.makedirs(VERIF + "/replay", exist_ok=True)
        path = VERIF + "/replay/%s.json" % pid
        with open(path, "w") as f:
            json.dump({"property": pid, "summary": v.summary, "detail": v.detail}, f, indent=1)
        ctx.evidence(1)
        ctx.log(v.summary)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    except (ToolError, vbuild.BuildError) as e:
        ctx.log("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
