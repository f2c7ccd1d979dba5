#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Objects are cached in /verif/build keyed by the content of the source, of every
header it read (from the compiler's own dependency file) and of the flags, so a
check always reflects the tree as it is and an unchanged file is not recompiled.
"""
import hashlib, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIMDIR = os.path.join(VERIF, "sim")

DEFS = ["-DCMAKE_SRC_DIR=" + REPO, "-DHAVE_SRC_LOC_IN_ERR_MSGS=0", "-DUSE_LIBFMT=0", "-DNDEBUG"]
WARN = ["-w"]
CXX = "g++"
CC = "gcc"

_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [t for t in txt.split() if t]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def compile_one(job):
    src, obj, cmd = job
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(fhash(p) == h for p, h in m["deps"]):
                return 0, "", False
        except (ValueError, KeyError, OSError):
            pass
    dep = obj + ".d"
    rc, out = run(cmd + ["-MD", "-MF", dep, "-o", obj, src])
    if rc != 0:
        return rc, "$ " + " ".join(cmd) + " " + src + "\n" + out, True
    deps = sorted(set(parse_dep(dep)))
    deps = [p for p in deps if not p.endswith(".gch")]
    json.dump({"key": key, "deps": [[p, fhash(p)] for p in deps]}, open(meta, "w"))
    return 0, out, True


def sources():
    res = []
    for d in ("libs/MeshKernel/src", "libs/MeshKernelApi/src"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    res.append(os.path.join(root, f))
    res.sort(key=lambda p: (-os.path.getsize(p), p))
    tri = [os.path.join(REPO, "extern/triangle/src", f) for f in ("triangle.c", "TriangleFacade.c")]
    return res, tri


def build(verbose=True):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    gen = os.path.join(OUT, "gen")
    os.makedirs(os.path.join(gen, "Version"), exist_ok=True)
    vh = os.path.join(gen, "Version", "Version.hpp")
    txt = 'static const char versionString[64] = "simulated";\n'
    if not os.path.exists(vh) or open(vh).read() != txt:
        open(vh, "w").write(txt)
    inc = ["-I" + os.path.join(REPO, "libs/MeshKernel/include"),
           "-I" + os.path.join(REPO, "libs/MeshKernelApi/include"),
           "-isystem", "/usr/include/eigen3", "-I" + gen]
    libflags = ["-std=c++20", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-fno-pie",
                "-ffp-contract=off"] + WARN + DEFS + inc
    # precompiled header, one for the instrumented library flags
    pchdir = os.path.join(OUT, "pch")
    os.makedirs(pchdir, exist_ok=True)
    pch_src = os.path.join(SIMDIR, "pch.hpp")
    pch_hdr = os.path.join(pchdir, "pch.hpp")
    if not os.path.exists(pch_hdr) or open(pch_hdr).read() != open(pch_src).read():
        shutil.copy(pch_src, pch_hdr)
    shutil.copy(pch_src, os.path.join(pchdir, "pch_sim.hpp"))
    jobs_pch = (pch_hdr, pch_hdr + ".gch", [CXX] + libflags + ["-x", "c++-header"])
    rc, out, did = compile_one(jobs_pch)
    if rc:
        return rc, out
    jobs = []
    cpp, tri = sources()
    for s in cpp:
        o = os.path.join(OUT, "obj", os.path.relpath(s, REPO).replace("/", "__") + ".o")
        jobs.append((s, o, [CXX] + libflags + ["-Winvalid-pch", "-include", pch_hdr, "-c"]))
    for s in tri:
        o = os.path.join(OUT, "obj", os.path.relpath(s, REPO).replace("/", "__") + ".o")
        jobs.append((s, o, [CC, "-O1", "-g1", "-w", "-fno-pie", "-fsanitize=thread", "-Dmalloc=tri_malloc", "-Dfree=tri_free", "-Dexit=tri_exit", "-DANSI_DECLARATORS", "-DTRILIBRARY", "-DNO_TIMER", "-c"]))
    simflags = ["-std=c++20", "-O1", "-g1", "-fno-pie", "-ffp-contract=off", "-Wall", "-Wno-unused-function"] + DEFS + inc + ["-I" + SIMDIR]
    simsrc = sorted(os.path.join(SIMDIR, f) for f in os.listdir(SIMDIR) if f.endswith(".cpp"))
    for s in simsrc:
        o = os.path.join(OUT, "obj", "sim__" + os.path.basename(s) + ".o")
        jobs.insert(0, (s, o, [CXX] + simflags + (["-O2"] + (["-DSIM_COV"] if os.environ.get("SIM_COVER") else []) if s.endswith("rt.cpp") else []) + ["-include", pch_hdr.replace("pch.hpp", "pch_sim.hpp"), "-c"]))
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    fails = []
    changed = False
    with ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))) as ex:
        for rc, out, did in ex.map(compile_one, jobs):
            changed = changed or did
            if rc:
                fails.append(out)
            elif out and verbose:
                sys.stderr.write(out)
    if fails:
        return 1, "\n".join(fails)
    exe = os.path.join(OUT, "sim")
    objs = sorted(o for _, o, _ in jobs)
    wraps = []
    wl = os.path.join(SIMDIR, "wraps.txt")
    if os.path.exists(wl):
        for w in open(wl).read().split():
            wraps.append("-Wl,--wrap=" + w)
    cmd = [CXX, "-no-pie", "-o", exe] + objs + wraps + ["-lpthread"]
    key = hashlib.sha256(json.dumps([cmd] + [fhash_now(o) for o in objs]).encode()).hexdigest()
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        rc, out = run(cmd)
        if rc:
            return rc, out
        open(kf, "w").write(key)
    if verbose:
        sys.stderr.write("build: %.1fs, %d objects\n" % (time.time() - t0, len(objs)))
    return 0, ""


def fhash_now(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


if __name__ == "__main__":
    rc, out = build()
    if rc:
        sys.stderr.write(out)
    sys.exit(rc)
