#!/usr/bin/env python3
"""Builds the harness from /repo's current working tree.

Objects are cached under /verif/build/cache by the content of everything they are made from,
so nothing depends on time stamps and a changed source is always recompiled.
build(flavour) -> path of the directory holding the executables.
"""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NDEBUG = {"Design", "Driver", "InternalOptimizers", "ObjectiveFunctions", "Optimizers", "SurrogateModels"}
EXCLUDE = {"InternalOptimizers/gradient_optimizer.cpp"}   # part of no library of the project
COMPONENTS = ["API", "Bounds", "CorrelationFunctions", "Design", "Driver", "InternalOptimizers", "LinearAlgebra",
              "ObjectiveFunctions", "Optimizers", "SurrogateModels"]
def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:32]
def rd(p):
    with open(p, "rb") as f: return f.read()
class BuildError(Exception): pass
def compile_one(job):
    cmd, src, out = job
    if os.path.exists(out):
        os.utime(out); return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, out)
def build(flavour="plain", verbose=False):
    san = flavour == "san"
    base = ["g++", "-fno-diagnostics-show-caret", "-fPIC", "-pthread", "-w"]
    opt = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if san else ["-O2"]
    hopt = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else ["-O1"]
    hdrs = sorted(glob.glob(REPO + "/src/**/*.hpp", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/externalFunctions/INCLUDE/*.h*"))
    hd = h(*[x for p in hdrs for x in (os.path.relpath(p, REPO), rd(p))])
    jobs, objs = [], []
    def add(src, flags, extra=b""):
        key = h(" ".join(flags), rd(src), hd, extra, src)
        out = os.path.join(BUILD, "cache", key + ".o")
        jobs.append((flags, src, out)); return out
    for comp in COMPONENTS:
        for src in sorted(glob.glob("%s/src/%s/*.cpp" % (REPO, comp))):
            if os.path.relpath(src, REPO + "/src") in EXCLUDE: continue
            fl = base + opt + ["-fopenmp", "-DOPENMP_SUPPORT"]
            if comp in NDEBUG: fl.append("-DNDEBUG")
            if comp == "LinearAlgebra": fl.append("-DOPENBLAS")
            objs.append(add(src, fl))
    # user supplied functions: the project's own for the program, instrumented ones (h_opt.cpp) in the harness
    extobjs = [add(src, base + opt) for src in sorted(glob.glob(REPO + "/externalFunctions/*.cpp"))]
    # and under other names for the reference runs of the harness
    refobjs = [add(src, base + opt + ["-DconstraintFunction%d=projectFunction%d" % (i, i) for i in range(4)]) for src in sorted(glob.glob(REPO + "/externalFunctions/*.cpp"))]
    hsrc = sorted(glob.glob(VERIF + "/harness/*.cpp"))
    hhd = b"".join(rd(p) for p in sorted(glob.glob(VERIF + "/harness/*.hpp")))
    hobjs = []
    for src in hsrc:
        n = os.path.basename(src)
        if n == "evalprog.cpp": continue
        fl = base + hopt + ["-fopenmp", "-DOPENMP_SUPPORT", "-DNDEBUG", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
        hobjs.append(add(src, fl, hhd))
    mainobj = add(REPO + "/src/Rodeo.cpp", base + opt + ["-fopenmp", "-DOPENMP_SUPPORT"])
    ipclock = add(VERIF + "/harness/interpose.cpp", base + hopt + ["-DPBT_SEED_CLOCK"])
    evalobj = add(VERIF + "/harness/evalprog.cpp", ["g++", "-O1", "-w"], hhd)
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(compile_one, jobs))
    def link(name, o, flags):
        key = h(name, " ".join(flags), *[os.path.basename(x) for x in o])
        d = os.path.join(BUILD, flavour); os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, name + ".key"); exe = os.path.join(d, name)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key: return exe
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + o + ["-o", tmp] + ([] if name == "evalprog" else ["-lopenblas", "-lgomp", "-lpthread"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe); open(stamp, "w").write(key); return exe
    lf = ["-fopenmp"] + (["-fsanitize=address,undefined"] if san else [])
    link("harness", hobjs + objs + refobjs, lf)
    link("rodeo", [mainobj, ipclock] + objs + extobjs, lf)
    link("evalprog", [evalobj], [])
    # keep the cache small
    ents = sorted(((os.path.getmtime(p), p) for p in glob.glob(BUILD + "/cache/*.o")), reverse=True)
    for _, p in ents[400:]:
        try: os.remove(p)
        except OSError: pass
    return os.path.join(BUILD, flavour)
if __name__ == "__main__":
    try:
        for f in (sys.argv[1:] or ["plain"]): print(build(f))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
