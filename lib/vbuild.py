"""Builds conformance drivers from /repo's current working tree.

Objects are cached in /verif/.build by the hash of the command line and of the
contents of every file the compilation read, so a stale object is never used.
"""
import hashlib, os, re, subprocess, sys, json, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GEN = os.path.join(BUILD, "gen")
HARNESS = os.path.join(VERIF, "harness")
CXX = "/usr/bin/g++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

BASE_FLAGS = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-w", "-fPIE",
              "-Wno-maybe-uninitialized"]
INCS = ["-I" + HARNESS, "-I" + REPO, "-I" + GEN, "-isystem", "/usr/include/eigen3",
        "-isystem", "/usr/include/lua5.2", "-isystem", "/usr/include/cairo"]
LIBS = ["-lprotobuf", "-lceres", "-lglog", "-lgflags", "-llua5.2",
        "-lboost_iostreams", "-lcairo", "-lz", "-lpthread", "-ldl"]
ABSL = ["-labsl_synchronization", "-labsl_graphcycles_internal", "-labsl_hash", "-labsl_city",
        "-labsl_low_level_hash", "-labsl_raw_hash_set", "-labsl_hashtablez_sampler",
        "-labsl_bad_optional_access", "-labsl_bad_variant_access", "-labsl_strings",
        "-labsl_strings_internal", "-labsl_str_format_internal", "-labsl_time", "-labsl_time_zone",
        "-labsl_int128", "-labsl_throw_delegate", "-labsl_raw_logging_internal", "-labsl_base",
        "-labsl_spinlock_wait", "-labsl_malloc_internal", "-labsl_stacktrace", "-labsl_symbolize",
        "-labsl_exponential_biased"]

# Sources the stock build leaves out because they use Ceres API that Ceres 2.2
# renamed; compiled here with a forwarding header (harness/ceres_compat.h).
COMPAT = {
    "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc",
    "cartographer/mapping/internal/imu_based_pose_extrapolator.cc",
    "cartographer/mapping/internal/optimization/ceres_pose.cc",
    "cartographer/mapping/internal/optimization/optimization_problem_2d.cc",
    "cartographer/mapping/internal/optimization/optimization_problem_3d.cc",
}


class BuildError(Exception):
    pass


_fh = {}


def file_hash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _fh:
        with open(p, "rb") as f:
            _fh[k] = hashlib.sha1(f.read()).hexdigest()
    return _fh[k]


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def generate():
    """config.h and protobuf sources from the current tree."""
    os.makedirs(GEN, exist_ok=True)
    cfg = open(REPO + "/cartographer/common/config.h.cmake").read()
    cfg = cfg.replace("@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@",
                      REPO + "/configuration_files")
    cfg = cfg.replace("@PROJECT_SOURCE_DIR@", REPO)
    write_if_changed(GEN + "/cartographer/common/config.h", cfg)
    protos = []
    for d, _, fs in os.walk(REPO + "/cartographer"):
        for f in fs:
            if f.endswith(".proto"):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if "/cloud/" in "/" + rel:
                    continue
                protos.append(rel)
    protos.sort()
    h = hashlib.sha1()
    for p in protos:
        h.update(p.encode() + (file_hash(REPO + "/" + p) or "").encode())
    stamp = GEN + "/.protos"
    key = h.hexdigest()
    try:
        if open(stamp).read() == key:
            return protos
    except OSError:
        pass
    tmp = GEN + ".proto.tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + tmp] + protos,
                       cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("protoc failed: " + r.stderr)
    for d, _, fs in os.walk(tmp):
        for f in fs:
            p = os.path.join(d, f)
            write_if_changed(os.path.join(GEN, os.path.relpath(p, tmp)), open(p, "rb").read())
    shutil.rmtree(tmp, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(key)
    return protos


def parse_deps(path):
    s = open(path).read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [x for x in s.split() if x]


def interesting(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")


def compile_one(src, flags):
    """Returns (object path, list of deps below /repo or /verif)."""
    cmd = [CXX] + BASE_FLAGS + list(flags)
    rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else src
    if rel in COMPAT:
        cmd += ["-include", HARNESS + "/ceres_compat.h"]
    cmd += INCS
    base = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()
    odir = os.path.join(BUILD, "obj", base[:2])
    os.makedirs(odir, exist_ok=True)
    meta = os.path.join(odir, base + ".json")

    def key_of(deps):
        h = hashlib.sha1()
        for d in deps:
            fhh = file_hash(d)
            if fhh is None:
                return None
            h.update(d.encode() + fhh.encode())
        return h.hexdigest()

    try:
        m = json.load(open(meta))
        for ent in m:
            if key_of(ent["deps"]) == ent["key"] and os.path.exists(ent["obj"]):
                return ent["obj"], ent["deps"]
    except (OSError, ValueError):
        m = []
    tmpo = os.path.join(odir, base + ".%d.tmp.o" % os.getpid())
    dfile = tmpo + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dfile, "-c", src, "-o", tmpo],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    deps = sorted(set(os.path.normpath(d) for d in parse_deps(dfile) if interesting(os.path.normpath(d))))
    key = key_of(deps)
    obj = os.path.join(odir, base + "." + key[:12] + ".o")
    os.replace(tmpo, obj)
    os.unlink(dfile)
    ent = {"deps": deps, "key": key, "obj": obj}
    m = [e for e in m if e["key"] != key][-3:] + [ent]
    tmpm = meta + ".tmp%d" % os.getpid()
    json.dump(m, open(tmpm, "w"))
    os.replace(tmpm, meta)
    return obj, deps


def sources_for(deps):
    out = set()
    for d in deps:
        if d.startswith(REPO + "/cartographer/") and d.endswith(".h"):
            cc = d[:-2] + ".cc"
            if os.path.exists(cc):
                out.add(cc)
        elif d.startswith(GEN + "/") and d.endswith(".pb.h"):
            out.add(d[:-2] + ".cc")
        elif d.startswith(HARNESS + "/") and d.endswith(".h"):
            cc = d[:-2] + ".cc"
            if os.path.exists(cc):
                out.add(cc)
    return out


def all_sources():
    out = set()
    for d, _, fs in os.walk(REPO + "/cartographer"):
        if "/cloud" in d or d.endswith("/testing"):
            continue
        for f in fs:
            if f.endswith(".cc") and not re.search(r"_test\.cc$|_main\.cc$|fake_|mock_|_benchmark", f):
                out.add(os.path.join(d, f))
    for d, _, fs in os.walk(GEN):
        for f in fs:
            if f.endswith(".pb.cc"):
                out.add(os.path.join(d, f))
    return out


def build(name, flags=(), exclude=(), extra=(), libs=(), repo_flags=None, main_flags=(), only=None):
    """Builds harness/<name>.cc together with the sources it (transitively)
    includes headers of. `exclude`: repo-relative sources to leave out because
    the harness supplies its own definitions. Returns the executable."""
    generate()
    flags = list(flags)
    rflags = flags if repo_flags is None else list(repo_flags)
    exclude = set(REPO + "/" + e for e in exclude)
    main = os.path.join(HARNESS, name + ".cc")
    todo = {main}

    def flags_of(s):
        if s == main:
            return flags + list(main_flags)
        if only is not None and s.startswith(REPO) and os.path.relpath(s, REPO) not in only:
            return flags
        return rflags if s.startswith(REPO) else flags
    for e in extra:
        todo.add(e if e.startswith("/") else os.path.join(REPO, e))
    done = {}
    with ThreadPoolExecutor(JOBS) as ex:
        while todo:
            batch = sorted(todo)
            res = list(ex.map(lambda s: compile_one(s, flags_of(s)), batch))
            for s, r in zip(batch, res):
                done[s] = r
            todo = set()
            for s in batch:
                todo |= sources_for(done[s][1])
            todo -= set(done)
            todo -= exclude
    exe = link(name, done, flags, libs)
    if exe is None:
        sys.stderr.write("first link of %s failed, adding all sources: %s\n" % (name, LAST_LINK[-1500:]))
        # Something lives in a source without a header of the same name.
        more = all_sources() - set(done) - exclude
        rest = []
        with ThreadPoolExecutor(JOBS) as ex:
            def tryc(s):
                try:
                    return compile_one(s, rflags)
                except BuildError:
                    return None
            for s, r in zip(sorted(more), ex.map(tryc, sorted(more))):
                if r:
                    rest.append(r[0])
        ar = BUILD + "/bin/rest-%d.a" % os.getpid()
        subprocess.run(["ar", "rcs", ar] + rest, check=True)
        exe = link(name, done, flags, list(libs) + [ar])
        os.unlink(ar)
        if exe is None:
            raise BuildError("linking %s failed:\n%s" % (name, LAST_LINK))
    return exe


LAST_LINK = ""


def link(name, done, flags, libs):
    global LAST_LINK
    objs = sorted(r[0] for r in done.values())
    key = hashlib.sha1("\0".join(objs + list(flags) + list(libs)).encode()).hexdigest()[:16]
    os.makedirs(BUILD + "/bin", exist_ok=True)
    exe = BUILD + "/bin/%s-%s" % (name, key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX, "-pie", "-o", tmp] + objs + list(libs) +
                       ["-Wl,--as-needed", "-Wl,--start-group"] + LIBS + ABSL + ["-Wl,--end-group"],
                       capture_output=True, text=True)
    if r.returncode:
        LAST_LINK = r.stderr[-4000:]
        return None
    os.replace(tmp, exe)
    return exe
