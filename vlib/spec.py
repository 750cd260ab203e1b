"""Which harness parts decide which property."""
import os, build
def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMP_", "GOMP_", "ASAN_", "TSAN_", "H_")) and k != "H_TIME":
            del e[k]
    e["GLIBC_TUNABLES"] = ""
    return e
MAIN = ("hist.cpp", "mem.cpp", "omp.cpp", "big.cpp", "fenv.cpp", "stk.cpp", "life.cpp")
def main_():
    return build.build_main(src=MAIN, tag="main")
SUBSETS = [("sse2",), ("avx",), ("avx2",), ("sse2", "avx"), ("sse2", "avx2"), ("avx", "avx2")]
def fac_sub(s):
    def f():
        return build.build_fac(subset=s)
    return f
PARTS = {
    "main": dict(build=main_, deadline=(420, 3000)),
    "cpu": dict(build=build.build_fac, deadline=(420, 2400)),
    "engines": dict(build=lambda: build.build_main(dit16=True, src=("eng.cpp",), shim=True, engines=True, tag="eng"), deadline=(420, 3000)),
    "threads": dict(build=lambda: build.build_main(omp="real", src=("thr.cpp",), shim=True, tag="thr"), deadline=(300, 2400), workers=4, flaky=True),
    "objrace": dict(build=build.build_race, deadline=(300, 2400), prop="C10race", optional=True),
    "omprace": dict(build=build.build_race, deadline=(300, 2400), prop="C09race", optional=True),
    "big": dict(build=main_, deadline=(500, 3000), workers=4),
    "cost": dict(build=build.build_race, deadline=(400, 2400)),
    "stack": dict(build=main_, deadline=(200, 900), prop="C18stk"),
    "lifetime": dict(build=main_, deadline=(120, 600), prop="C11life"),
    "huge": dict(build=main_, deadline=(500, 3000), workers=1, prop="C14huge"),
    "cfgA": dict(build=lambda: build.build_cfg("A"), deadline=(300, 2000)),
    "cfgB": dict(build=lambda: build.build_cfg("B"), deadline=(300, 2000)),
    **{"only-" + "-".join(x): dict(build=fac_sub(x), deadline=(120, 900), prop="C11", optional=True) for x in SUBSETS},
    "side": dict(build=lambda: build.build_main(omp="real", src=("side.cpp",), tag="side"), deadline=(300, 2400), workers=4),
    "header": dict(build=build.build_cx, deadline=(300, 2400)),
}
XF = ("A case is one transform of one object: (kind, length, backend, variant, OpenMP thread count and thread order, signal class, data seed, buffer offset, creation with a length or a later setup). "
      "Lengths: every small length, every power of two, random, smooth, prime-multiple and threshold-adjacent ones; signals: uniform, impulses, tones, constant, alternating, sparse, wide dynamic range. "
      "Non-trivial: the reference result is not all zero and the length is at least 2; distinct by the full case text.")
def P(parts, rule, technique, note, level="exploration", **kw):
    return dict(parts=parts, rule=rule, technique=technique, note=note, level=level, **kw)
N = "Search over generated cases, no proof of absence; the oracle is an independent extended-precision DFT/DCT (checked against its definition at start) or a closed form at very long lengths. Trusts gcc, the CPU's floating point, and a deterministic OpenMP runtime that stands in for libgomp."
PROPS = {
    "C01": P(["main"], XF, "property-based testing against a reference DFT", N),
    "C02": P(["main"], XF, "property-based testing against a reference inverse DFT", N),
    "C03": P(["main"], XF, "property-based testing against a reference real DFT", N),
    "C04": P(["main"], XF, "property-based testing against a reference inverse real DFT", N),
    "C05": P(["main"], XF, "property-based testing against a reference DCT-II/III", N),
    "C06": P(["main"], XF, "property-based testing against a reference DFT", N),
    "C07": P(["main"], "A case is a history of up to a few dozen steps over several objects of any kind and backend: create (with or without a length), setup to another length, transform, repeat an earlier transform, copy the data elsewhere, destroy, interleaved with steps on other objects. Every transform in it is compared with the reference and with the bits of the same transform on a fresh object. Non-trivial: at least one transform of length 2 or more with a non-zero result after an object has been set up more than once or next to another live object.",
             "stateful (model-based) testing of object histories", "The model is the reference transform of the current length plus bit-equality with a fresh object. Histories are random, with a deterministic OpenMP runtime; no proof of absence."),
    "C08": P(["main"], "A case is one transform (or one leak cycle) with every block of memory the library allocates, and the caller's arrays, ending (or starting) at an inaccessible page, at 8- and 16-byte offsets, run twice with different contents of all fresh memory. Non-trivial: length at least 2 and a non-zero result, or a leak cycle with at least two lengths.",
             "property-based testing with guarded memory placement, garbage-independence and ledger oracles", "An access outside a block is seen when it crosses the adjacent page boundary or touches a canary; a read of uninitialised memory when it changes the result."),
    "C09": P(["main", "omprace"], "A case is one transform or setup executed by a team of 1 to 24 (deterministically scheduled) OpenMP threads, in a generated order of threads and chunks, compared bit for bit between team sizes where the engine is the same, and with the reference; or one instrumented transform whose accesses, per OpenMP thread and barrier interval, are checked for conflicts. Non-trivial: more than one thread in some parallel region and length at least 2.",
             "property-based testing over generated OpenMP schedules with a happens-before race monitor", "The schedule is generated by a deterministic OpenMP runtime that replaces libgomp, at the granularity of barriers and work-sharing chunks; finer interleavings are covered by the conflict monitor (AVX2 and common code)."),
    "C10": P(["threads", "objrace"], "A case is a set of small programs (create, setup, transform, destroy; on own objects, or const transforms with caller-provided scratch on a shared one) run by 2 to 8 real threads with real libgomp, all results compared with the reference; or the same programs run with instrumented code and a monitor of conflicting accesses; or a history whose steps (create, set up, transform, destroy) are executed one after another by changing threads, some of which end in between. Non-trivial: at least two threads that both executed a transform; an object was handed over and then transformed correctly.",
             "concurrent program generation with result oracle and a data-race monitor", "Real-thread interleavings are whatever the machine produces (with generated jitter); the monitor sees unsynchronised conflicting accesses independently of timing, in the AVX2 and common code."),
    "C11": P(["cpu", "lifetime"] + ["only-" + "-".join(x) for x in SUBSETS], "A case is one emulated CPU (maximum CPUID leaf, leaf-1 and leaf-7 feature words, XCR0) in a process of its own, in which all 4 requested types x 4 object kinds are created, identified by dynamic type, used and destroyed; or one object whose every instruction from creation to destruction is single-stepped and classified. Non-trivial: every such case in which the trap fired. All combinations of the six relevant bits and six maximum leaves are enumerated with random other bits; further ones are random. The other parts repeat this for the library configured with each proper subset of the backends. In part lifetime a case is one length at which objects of all kinds are created and used during static initialisation and used, set up again and destroyed during termination.",
             "generated CPU configurations with emulated CPUID/XGETBV, single-stepping", "The probe runs unmodified except for a trapping instruction before each CPUID and XGETBV; an instruction outside the selected set is recognised by its encoding when single-stepped on the real CPU."),
    "C12": P(["main"], "A case is one operation (creation, setup, re-setup of an object of some kind, backend and length, possibly with other live objects) with its k-th allocation failing (all k enumerated for the listed lengths; or all allocations from the k-th), followed by a generated recovery history. Non-trivial: a failure was injected.",
             "fault enumeration over generated histories", "Allocation failures are injected at malloc/aligned allocation level inside library calls only.", level="fault_enumeration"),
    "C13": P(["engines"], "A case is one transform of one internal engine (9 engine classes, 3 backends, 8 variants) at one power of two, with a thread count and order, a signal and an array offset, against the reference, with canaries around both arrays. Non-trivial: length at least 2 and non-zero result.",
             "differential and reference testing of all engines", "Engines are reached through the internal classes compiled from the tree; if they are renamed beyond recognition the check falls back to the public API and says so in the evidence."),
    "C14": P(["big", "huge"], XF + " Inputs of the longest transforms are sums of tones and impulses, whose transforms have a closed form evaluated for every element in extended precision.",
             "property-based testing at extreme lengths against closed forms", "Bounded by memory: complex and real lengths to 2^27 (quick) and 2^28 (thorough), DCT to 2^26 and 2^28, Bluestein to 2^26 (quick and thorough); prime factors to 92683."),
    "C15": P(["main"], XF + " Error bounds here are a small multiple of machine epsilon. Homogeneity cases transform an input, and the same input scaled by a power of two, negated, with its zeros' signs flipped, and all zero.",
             "property-based testing with tight error bounds and metamorphic scaling relations", N),
    "C17": P(["cfgA", "cfgB"], XF + " The three backend names stand for three other compilations of the sources: in part cfgA SSE4.2 (SSE3 code paths), AVX with FMA, AVX-512; in part cfgB no vector instructions, single-threaded without OpenMP, clang without OpenMP.",
             "differential property-based testing of build configurations against a reference DFT", "Six configurations; a configuration the machine's CPU cannot run is replaced by a default one (seen in the evidence as equal classes). Same oracle and generators as C01-C06, sampled."),
    "C18": P(["cost", "stack"], "A case is one transform, or one creation, of one object at one length, with every memory access of the library code counted, the bytes the object holds and, in part stack, the deepest byte of a painted stack that was touched. Non-trivial: length at least 2 and some accesses were counted.",
             "property-based testing of operation counts against a cost model", "Counts memory accesses outside the stack in instrumented AVX2 and common code, one thread; the allowed constant is about three times what the tree needs, so only growth beyond a constant factor is seen."),
    "C19": P(["main"], "A case is one object created under one floating-point mode (four rounding directions; denormals flushed; invalid, divide-by-zero and overflow traps enabled) and transformed under another. Non-trivial: length at least 2 and the reference result is not all zero.",
             "property-based testing over generated floating-point environments", "The modes are set in MXCSR and the x87 control word around each library call, on one thread; the result is compared with the reference with four times the usual tolerance, and the control words, sticky flags (invalid, divide-by-zero, overflow) and x87 stack are read back."),
    "C20": P(["side"], "A case is one object created, used for one to all of its transforms, set up again and destroyed in a process of its own, under generated OpenMP, signal, locale, stream, umask and priority settings; process state is compared around every call, output captured, and system calls with an outside effect trapped. Non-trivial: length at least 2.",
             "property-based testing with process-state snapshots and a system-call trap", "Compares the listed state only; system calls are trapped by a seccomp filter where the kernel allows one (tallied). errno and the floating-point environment (see C19) are not part of it."),
    "C21": P(["main"], "A case is one transform of one object (kind, length, backend, variant, threads), run on finite data, on the same data with one component replaced by NaN or an infinity (three or four places and values), and on the finite data again; or on data scaled to magnitude 2^e, e between -1020 and the largest that cannot overflow. Non-trivial: length at least 2 and some output was non-finite; or the reference is not all zero and the rounding of denormals cannot explain 1 % of it.",
             "property-based testing with a dependency oracle for non-finite data and power-of-two scaled references", "Which output components must become non-finite follows from the exact weights of the transform (decided in integers), not from an implementation. For spectra of real signals both mirrored components are replaced. Bluestein data are kept N^3 below overflow, as its convolution is that much larger."),
    "C16": P(["header"], "A case is one operation of the complex type on one generated operand tuple in one of six compilations of the public header, or one history of array constructions, setups, failing setups and destructions in guarded memory. Non-trivial: some operand is not zero; some array has elements.",
             "property-based testing against extended-precision complex arithmetic; stateful testing of the array", "Operands within 2^-200..2^200 in magnitude, plus zeros. proj() is not covered: std::proj changed meaning between C++98 and C++11 and the header keeps the old one."),
}
def build_all():
    done = set()
    for n, p in PARTS.items():
        if p["build"] in done:
            continue
        done.add(p["build"])
        try:
            p["build"]()
        except build.BuildError as e:
            print("part", n, "not built:", str(e)[-500:])
