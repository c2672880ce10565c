#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's current working tree into /verif/build.

Objects are cached by the content of everything they are made from (flags, source file, all
headers of /repo/include, all headers of sim/), never by time stamps."""
import hashlib, os, subprocess, sys, concurrent.futures, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
# san: every run watched for memory errors and undefined behaviour; fast: several times as many runs
COMMON = ["-std=gnu++17", "-g1", "-w", "-fno-omit-frame-pointer"]
KINDS = {"san": COMMON + ["-O1"] + SAN, "fast": COMMON + ["-O2", "-D_GLIBCXX_ASSERTIONS"]}
INC = ["-I" + SIM + "/stubs", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + SIM]
OPENCV = ["-I/usr/include/opencv4", "-DCV_FILLED=cv::FILLED"]
WRAPS = ["malloc", "calloc", "realloc", "free", "clock_gettime", "gettimeofday", "time", "clock",
         "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
         "rand", "srand", "_ZN5boost11this_thread18interruption_pointEv"]
LINK = ["-Wl,--wrap=" + w for w in WRAPS] + ["-lboost_thread", "-lboost_system", "-pthread"]
SKIP = {"simbot4ws.cpp", "path4ws_simulator.cpp", "path4ws_sim.cpp", "CostPrecomputation.cpp", "CurveRenderer.cpp",
        "CurveTest.cpp", "UnitTest.cpp", "PoseListGoalRegion.cpp", "Path.cpp"}

def lib(*dirs):
    r = []
    for d in dirs:
        for f in sorted(glob.glob("%s/src/%s/*.cpp" % (REPO, d))):
            if os.path.basename(f) not in SKIP:
                r.append(f)
    return r

def s(*names):
    return [os.path.join(SIM, n) for n in names]

GRID = ("sim.cpp", "hist.cpp", "grid_run.cpp")
def binaries():
    b = {}
    b["h_grid"] = s(*GRID, "grid_algos.cpp", "h_grid.cpp") + lib("common", "generic")
    for n, extra, dirs in EXTRA:
        b[n] = s(*extra) + lib(*dirs)
    return b
EXTRA = [
    ("h_steer", GRID + ("steer_algos.cpp", "h_steer.cpp"), ("common", "generic", "ReedsShepp")),
    ("h_legacy", ("sim.cpp", "h_legacy.cpp"), ("common", "a_star")),
    ("h_curve", ("sim.cpp", "h_curve.cpp"), ("common", "ReedsShepp", "sampling")),
    ("h_maze", ("sim.cpp", "h_maze.cpp"), ()),
    ("h_map", ("sim.cpp", "h_map.cpp"), ("common",)),
    ("h_cells", ("sim.cpp", "h_cells.cpp"), ("common",)),
    ("h_multi", GRID + ("multi_algos.cpp", "h_multi.cpp"), ("common", "generic", "ReedsShepp")),
]

def feature_defs():
    """Things some trees lack; a harness then leaves them out instead of failing to build."""
    return []

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()

def flags_for(src, kind):
    f = KINDS[kind] + INC
    if src.startswith(REPO):
        if os.path.basename(src) in ("CollisionGridMap2d.cpp",):
            f = f + OPENCV + ["-include", "stack", "-O2"] + (["-fno-sanitize=undefined"] if kind == "san" else [])   # Eigen is very slow with it
    if os.path.basename(src) == "h_maze.cpp":
        f = f + OPENCV
    return f

def compile_one(args):
    src, key, flags = args
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX, "-c", src, "-o", tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, "compiling %s failed:\n%s" % (src, p.stdout.decode(errors="replace")[-6000:])
    os.rename(tmp, obj)
    return obj, None

def build(names=None, kinds=("san",), jobs=8):
    """-> {name: binary} for one kind, {(name, kind): binary} for several"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    bins = binaries()
    names = names or sorted(bins)
    rh = tree_hash(REPO + "/include", (".h", ".hpp"))
    sh = tree_hash(SIM, (".h", ".hpp"))
    todo, plan = {}, {}
    for n in names:
        for kind in kinds:
            keys = []
            for src in bins[n]:
                fl = flags_for(src, kind)
                key = sha(rh, sh, " ".join(fl), os.path.basename(src), open(src, "rb").read())
                todo[key] = (src, key, fl)
                keys.append(key)
            plan[n, kind] = keys
    # slowest first
    work = sorted(todo.values(), key=lambda t: -os.path.getsize(t[0]) - (10**6 if "algos" in t[0] or "/h_" in t[0] else 0))
    errs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for obj, err in ex.map(compile_one, work):
            if err:
                errs.append(err)
    if errs:
        raise RuntimeError("\n".join(errs))
    out = {}
    for n, kind in plan:
        link = LINK + (["-lopencv_imgproc", "-lopencv_core"] if n == "h_maze" else [])
        san = SAN if kind == "san" else []
        key = sha(*plan[n, kind], " ".join(link + san))
        b = os.path.join(BUILD, "bin", "%s-%s-%s" % (n, kind, key))
        if not os.path.exists(b):
            tmp = b + ".%d.tmp" % os.getpid()
            p = subprocess.run([CXX, "-o", tmp] + san + [os.path.join(BUILD, "obj", k + ".o") for k in plan[n, kind]] + link,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise RuntimeError("linking %s failed:\n%s" % (n, p.stdout.decode(errors="replace")[-6000:]))
            os.rename(tmp, b)
        out[n, kind] = b
    return out if len(kinds) > 1 else {n: b for (n, k), b in out.items()}

def prune(keep_days=0.5):
    import time
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                if time.time() - os.path.getmtime(p) > keep_days * 86400:
                    os.remove(p)

if __name__ == "__main__":
    try:
        r = build(sys.argv[1:] or None, ("san", "fast"))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    for k, v in r.items():
        print(k[0], k[1], v)
