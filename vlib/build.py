"""Builds the library under test from /repo's working tree, and the harness, into /verif/build.
Object files are cached by the hash of their preprocessed text and flags."""
import hashlib, os, subprocess, sys, threading, time, glob, heapq
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OTFFT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
NJ = os.cpu_count() or 8
COMMON = ("-DUNIX -fPIC -fvisibility=hidden -fvisibility-inlines-hidden -DBUILD_X64 -fopenmp -DNDEBUG "
          "-msse -msse2 -mfpmath=sse -std=c++11 -frounding-math -fno-finite-math-only -fsignaling-nans -fpermissive -w").split()
BACK = {"sse2": ["-msse2", "-DUSE_SSE2", "-DOTFFT_NAMESPACE=OTFFT_SSE2"],
        "avx": ["-mavx", "-DUSE_AVX", "-DOTFFT_NAMESPACE=OTFFT_AVX"],
        "avx2": ["-mavx2", "-DUSE_AVX2", "-DOTFFT_NAMESPACE=OTFFT_AVX2"]}
COST = {"dif16": 44, "dit16": 44, "sixstep": 40, "dif8": 22, "dit8": 22, "dit4": 10, "dif4": 10, "mixed": 4, "algo.cpp": 3}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def config_dir():
    d = os.path.join(BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "src", "otfft_config.h.in")
    out = []
    for l in open(src):
        if l.startswith("#cmakedefine"):
            l = "#define " + l.split(None, 1)[1]
        out.append(l)
    t = "".join(out)
    p = os.path.join(d, "otfft_config.h")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return d

def incs():
    return ["-I" + config_dir(), "-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(REPO, "src")]

class Job:
    def __init__(self, src, flags, cost=5, cc="g++", asm=None):
        self.src, self.flags, self.cost, self.cc, self.obj, self.asm = src, flags, cost, cc, None, asm
    def run(self):
        flags = self.flags
        if self.asm is not None or self.src.endswith(".s"):
            data = open(self.src, "rb").read()
        else:
            r = subprocess.run([self.cc] + flags + ["-E", "-P", self.src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise BuildError("preprocess %s:\n%s" % (self.src, r.stderr.decode(errors="replace")[-3000:]))
            data = r.stdout
        key = hashlib.sha256(data + b"\0" + " ".join([self.cc] + [f for f in flags if not f.startswith("-I")]).encode()).hexdigest()[:32]
        d = os.path.join(BUILD, "obj")
        os.makedirs(d, exist_ok=True)
        self.obj = os.path.join(d, os.path.basename(self.src).rsplit(".", 1)[0] + "-" + key + ".o")
        if os.path.exists(self.obj):
            os.utime(self.obj)
            return
        tmp = self.obj + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = sh([self.cc] + flags + ["-c", self.src, "-o", tmp])
        if r.returncode:
            raise BuildError("compile %s:\n%s" % (self.src, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, self.obj)

def run_jobs(jobs):
    jobs = sorted(jobs, key=lambda j: -j.cost)
    with ThreadPoolExecutor(NJ) as ex:
        fs = [ex.submit(j.run) for j in jobs]
        for f in fs:
            f.result()

def lib_jobs(opt, backends, dit16, extra=()):
    jobs = []
    ns = []
    for b in ("sse2", "avx", "avx2"):
        ns += ["-DUSE_" + b.upper()]
    jobs.append(("common", Job(os.path.join(REPO, "src", "otfft.cpp"), COMMON + [opt] + list(extra) + incs() + ns, 4)))
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        b = os.path.basename(s)
        if b == "otfft.cpp":
            continue
        if b == "otfft_algo_dit16.cpp" and not dit16:
            continue
        cost = 8
        for k, v in COST.items():
            if k in b:
                cost = v
        for be in backends:
            jobs.append((be, Job(s, COMMON + [opt] + list(extra) + incs() + BACK[be], cost * (1.5 if be == "sse2" else 1))))
    return jobs

def link(out, objs, libs, cc="g++", flags=()):
    """objs: plain objects; libs: list of object lists, each becoming an archive, in this order"""
    key = hashlib.sha256(" ".join(objs + sum(libs, []) + list(flags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", out + "-" + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    ars = []
    for i, l in enumerate(libs):
        a = exe + ".%d.%d.a" % (os.getpid(), i)
        r = sh(["ar", "crs", a] + l)
        if r.returncode:
            raise BuildError(r.stdout.decode())
        ars.append(a)
    tmp = exe + ".%d" % os.getpid()
    r = sh([cc] + list(objs) + ["-Wl,--start-group"] + ars + ["-Wl,--end-group", "-o", tmp] + list(flags))
    for a in ars:
        os.remove(a)
    if r.returncode:
        raise BuildError("link %s:\n%s" % (out, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(tmp, exe)
    return exe

def hjob(name, flags=(), cost=6, std="-std=c++17"):
    return Job(os.path.join(H, name), ["-O2", "-g1", std, "-Wno-attributes", "-I" + H] + incs() + list(flags), cost)

def prune():
    d = os.path.join(BUILD, "obj")
    lim = time.time() - 86400
    for f in glob.glob(os.path.join(d, "*")) + glob.glob(os.path.join(BUILD, "bin", "*")):
        try:
            if os.path.getmtime(f) < lim:
                os.remove(f)
        except OSError:
            pass

CORE = ["core.cpp", "ref.cpp", "xf.cpp", "props_xf.cpp", "ext.cpp"]

def shim_jobs(backends, engines, extra=()):
    """Adapters to the classes below the Factory; empty when this tree has none under those names."""
    js = [Job(os.path.join(H, "shim_be.cpp"), COMMON + ["-O1", "-I" + H, '-DSHIM_BE="%s"' % b] + (["-DSHIM_ENGINES"] if engines else []) + list(extra) + incs() + BACK[b], 3) for b in backends]
    try:
        run_jobs(js)
        return [j.obj for j in js]
    except BuildError:
        return []

def build_main(opt="-O3", omp="fiber", dit16=False, src=(), backends=("sse2", "avx", "avx2"), lib_extra=(), tag="h", shim=False, engines=False, hflags=(), ldflags=(), instrument=()):
    """The standard harness: library + deterministic OpenMP runtime (omp='fiber') or libgomp (omp='real')."""
    os.makedirs(BUILD, exist_ok=True)
    lj = lib_jobs(opt, backends, dit16, lib_extra)
    if instrument:
        lj = [x for x in lj if x[0] not in instrument and x[0] != "common"]
        lj += [x for x in lib_jobs("-O1", instrument, dit16, list(lib_extra) + ["-fsanitize=thread"])]
        lj.sort(key=lambda x: -x[1].cost)
    hs = CORE + list(src) + ["valloc.cpp"]
    hj = [hjob(s, hflags) for s in hs]
    oj = hjob("omp_fiber.cpp" if omp == "fiber" else "omp_real.cpp", list(hflags) + (["-fopenmp"] if omp == "real" else []))
    run_jobs([j for _, j in lj] + hj + [oj])
    libs = [[j.obj for b, j in lj if b == g] for g in ("common",) + tuple(backends)]
    objs = [j.obj for j in hj] + [oj.obj]
    fl = ["-pthread"] + (["-fopenmp"] if omp == "real" else []) + list(ldflags)
    tries = []
    if shim:
        if engines:
            tries.append((True, True))
        tries.append((True, False))
    tries.append((False, False))
    last = None
    for sh_, en in tries:
        ex = []
        if shim:
            so = shim_jobs([b for b in backends if b not in instrument], en) + shim_jobs(instrument, en, ['-fsanitize=thread']) if sh_ else []
            if sh_ and not so:
                continue
            j = hjob("shim.cpp", list(hflags) + ([] if so else ["-DSHIM_NONE"])); run_jobs([j])
            ex = so + [j.obj]
        try:
            return link(tag + "-" + omp, objs + ex, libs, flags=fl)
        except BuildError as e:
            last = e
    kw = dict(src=src, backends=backends, lib_extra=lib_extra, tag=tag, shim=shim, engines=engines, hflags=hflags, ldflags=ldflags, instrument=instrument)
    if not dit16:
        return build_main(opt, omp, True, **kw)
    if omp == "fiber" and not instrument:   # an OpenMP entry point the deterministic runtime does not know
        return build_main(opt, "real", dit16, **kw)
    raise last

def build_fac(opt="-O3", subset=None):
    """Harness for the CPU dispatch: otfft.cpp with a trap in front of every CPUID and XGETBV.
    subset: the library configured with only these backends."""
    import re, shutil
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    tmp = os.path.join(BUILD, "gen", "fac-%d-%d" % (os.getpid(), threading.get_ident())); os.makedirs(tmp)
    bk = ("sse2", "avx", "avx2")
    try:
        inc = incs(); root = os.path.join(REPO, "src")
        if subset:      # headers and otfft.cpp in a copy, because a header's own directory comes first in the search for otfft_config.h
            for d in ("inc", "src"):
                os.makedirs(os.path.join(tmp, d))
                for f in glob.glob(os.path.join(REPO, d, "*.h")) + glob.glob(os.path.join(REPO, d, "otfft.cpp")):
                    if os.path.basename(f) != "otfft_config.h":
                        shutil.copy(f, os.path.join(tmp, d))
            t = open(os.path.join(config_dir(), "otfft_config.h")).read()
            for b in bk:
                if b not in subset:
                    t = re.sub(r"(?m)^#define OTFFT_WITH_%s\b.*$" % b.upper(), "", t)
            open(os.path.join(tmp, "inc", "otfft_config.h"), "w").write(t)
            inc = ["-I" + os.path.join(tmp, "inc"), "-I" + os.path.join(tmp, "src")]; root = os.path.join(tmp, "src")
        flags = COMMON + [opt] + inc + ["-DUSE_" + b.upper() for b in bk if not subset or b in subset]
        src = os.path.join(root, "otfft.cpp"); s = os.path.join(tmp, "otfft.s")
        def trap():
            r = sh(["g++"] + flags + ["-S", src, "-o", s])
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-3000:])
            t = open(s).read()
            t = re.sub(r"(?m)^(.*?)(?<![\w.$])(cpuid|xgetbv)\b", r"\1ud2\n\t\2", t)
            open(s, "w").write(t)
            j = Job(s, [], asm=True); j.run()
            return j.obj
        class T(Job):
            def run(self):
                self.obj = trap()
        tj = T(s, [], 20)
        hs = []
        for x in CORE + ["fac.cpp", "valloc.cpp", "omp_fiber.cpp"]:
            j = hjob(x); j.flags = [f for f in j.flags if not f.startswith("-I") or f == "-I" + H] + inc; hs.append(j)
        for dit16 in (False, True):
            lj = [(g, j) for g, j in lib_jobs(opt, bk, dit16) if g != "common"]
            run_jobs([j for g, j in lj] + ([tj] + hs if not dit16 else []))
            try:
                return link("fac" + "".join(subset or ()), [j.obj for j in hs], [[tj.obj]] + [[j.obj for g, j in lj if g == b] for b in bk], flags=["-pthread", "-no-pie"])
            except BuildError as e:
                last = e
        raise last
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def build_race(backends=("avx2",)):
    """Library objects compiled with -fsanitize=thread, linked with the harness's own race detector instead of libtsan.
    The other backends are linked uninstrumented, because the factory refers to them."""
    wrap = ["-Wl,--wrap=" + f for f in ("__cxa_guard_release", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once")]
    return build_main(src=["race.cpp", "mtsan.cpp", "cost.cpp"], tag="race", shim=True, instrument=backends, ldflags=wrap + ["-no-pie", "-ldl", "-rdynamic"])

CLANG = [f for f in COMMON if f not in ("-fopenmp", "-fsignaling-nans", "-mfpmath=sse")]
# other ways to compile the sources; each takes the place (and the namespace) of one backend: (compiler, flags, CPU features needed)
CFGS = {
    "A": {"sse2": ("g++", COMMON + ["-O2", "-msse4.2", "-fno-tree-vectorize"], ()),                       # SSE3 code paths, 128 bit
          "avx": ("g++", COMMON + ["-O2", "-mavx", "-mfma"], ("fma",)),                                   # fused multiply-add code paths
          "avx2": ("g++", COMMON + ["-O1", "-march=skylake-avx512"], ("avx512f", "avx512dq", "avx512vl", "avx512bw"))},   # AVX-512 code paths
    "B": {"sse2": ("g++", COMMON + ["-O1", "-U__SSE2__", "-U__SSE3__"], ()),                             # portable code without intrinsics
          "avx": ("g++", [f for f in COMMON if f != "-fopenmp"] + ["-O2", "-mavx", "-DDO_SINGLE_THREAD"], ()),   # single-threaded build, no OpenMP
          "avx2": ("clang++", CLANG + ["-O1", "-mavx2"], ())},                                            # clang without OpenMP
}
def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

def build_cfg(which):
    """The harness on the library compiled in other supported ways. A configuration that this machine cannot run, or that this tree does not build in, is replaced by the normal one."""
    os.makedirs(BUILD, exist_ok=True)
    cfg = CFGS[which]; have = cpu_flags()
    def group(be, std, dit16):
        cc, flags, need = cfg[be]
        if std or not set(need) <= have:
            cc, flags = "g++", COMMON + ["-O3"] + BACK[be][:1]
        ns = ["-DUSE_" + be.upper(), "-DOTFFT_NAMESPACE=OTFFT_" + be.upper()]
        return [Job(s, flags + incs() + ns, max([v for k, v in COST.items() if k in s] or [8]) * (2 if "-O2" in flags else 1), cc=cc)
                for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if os.path.basename(s) != "otfft.cpp" and (dit16 or not s.endswith("dit16.cpp"))]
    com = [j for g, j in lib_jobs("-O3", (), False) if g == "common"]
    hj = [hjob(s) for s in CORE + ["valloc.cpp", "omp_fiber.cpp"]]
    def go(std, dit16):
        groups = {be: group(be, be in std, dit16) for be in cfg}
        run_jobs([j for js in groups.values() for j in js] + com + hj)
        return link("cfg" + which, [j.obj for j in hj], [[j.obj for j in com]] + [[j.obj for j in groups[b]] for b in cfg], flags=["-pthread"])
    for dit16 in (False, True):
        for std in ((), ) + ((("sse2",), ("avx",), ("avx2",), ("sse2", "avx", "avx2")) if dit16 else ()):
            try:
                return go(std, dit16)
            except BuildError as e:
                last = e
    raise last

def build_cx():
    """The complex type and array helper: the public header compiled as a user's program would, in several ways. Links no library code."""
    os.makedirs(BUILD, exist_ok=True)
    var = [("o0", "", 16, ["-O0", "-std=c++17"]), ("sse2", "", 16, ["-O2", "-std=c++11"]), ("o3", "", 16, ["-O3", "-std=c++17"]),
           ("lib", "avx", 32, [f for f in COMMON if f != "-fopenmp"] + ["-O2", "-mavx"]), ("avx2", "avx2fma", 32, ["-O2", "-std=c++17", "-mavx2", "-mfma"]),
           ("avx512", "avx512f", 64, ["-O2", "-std=c++14", "-mavx512f"])]
    js = [Job(os.path.join(H, "cx_var.cpp"), fl + ["-w", "-I" + H, "-DCXV=" + n, '-DCXCPU="%s"' % c, "-DCXALIGN=%d" % al] + incs(), 5) for n, c, al, fl in var]
    hs = [hjob(x) for x in ("core.cpp", "ref.cpp", "valloc.cpp", "omp_fiber.cpp", "cx.cpp")]
    run_jobs(js + hs)
    return link("cx", [j.obj for j in hs + js], [], flags=["-pthread"])

if __name__ == "__main__":
    t = time.time()
    print(build_main(*sys.argv[1:]), "%.1f s" % (time.time() - t))
