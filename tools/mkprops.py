import json
P=[]
def prop(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
K=["src/otfft_avxdif4.h","src/otfft_avxdif8.h","src/otfft_avxdif16.h","src/otfft_avxdit4.h","src/otfft_avxdit8.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_mixedradix.h","src/otfft_misc.h"]
KO=["src/otfft_avxdif8omp.h","src/otfft_avxdit8omp.h","src/otfft_avxdif4omp.h","src/otfft_avxdif16omp.h"]
prop("C01","Complex forward transforms compute the DFT",
 "For every supported length and every input vector, a complex FFT object's forward transform leaves in the caller's array, for every bin k, the sum over n of x[n]*exp(-2*pi*i*k*n/N), up to double-precision rounding relative to the size of the data. The unnormalised variant (fwd0) returns that sum, the default and 'n' variants (fwd, fwdn) return it divided by N, and the unitary variant (fwdu) returns it divided by sqrt(N). This holds on every instruction-set backend (SSE2, AVX, AVX2), and for lengths that are powers of two, products of small primes, products with large primes, odd or prime.",
 ["inputs","configurations"],"every length N>=1 (even lengths as documented, odd ones too), every finite complex input vector, 3 backends, 4 forward variants, any OpenMP thread count",
 "The tests check round trips at 0.1 % on the first half of the array at a few dozen lengths plus single sines; no test compares a full spectrum with a reference DFT, and no finite list of lengths reaches all (length, radix order, backend, variant) code paths.",
 ["src/otfft_algo.cpp"]+K+KO,
 [("length dispatch to a kernel engine","src/otfft_algo.cpp FFT0::setup"),("Stockham kernels per power of two","src/otfft_avxdi[ft]*.h fwdcore/fwdend"),("six-step/eight-step FFT for 2^16 and 2^18..2^24","src/otfft_sixstepsq.h, src/otfft_eightstep.h"),("mixed radix 8,4,2,5,3,any","src/otfft_mixedradix.h fwdfft/fwdfftp")],
 obs=["ComplexFFT::fwd/fwd0/fwdu/fwdn through Factory::createComplexFFT"])
prop("C02","Complex inverse transforms compute the inverse DFT and undo the forward ones",
 "For every supported length and every spectrum, a complex FFT object's inverse transform leaves in the caller's array, for every n, the sum over k of X[k]*exp(+2*pi*i*k*n/N), up to rounding: inv and inv0 unnormalised, invn divided by N, invu divided by sqrt(N). Consequently inv undoes fwd and fwdn, invn undoes fwd0, and invu undoes fwdu, for every element. This holds on every backend and for every kind of length.",
 ["inputs","configurations"],"every length N>=1, every finite complex spectrum, 3 backends, 4 inverse variants, any OpenMP thread count",
 "Existing tests only see inverse transforms through fwd0/invn round trips at a few lengths, comparing half of the array at 0.1 %; inv, inv0 and invu are essentially untested and a pair of compensating errors is invisible.",
 ["src/otfft_algo.cpp"]+K+KO,
 [("inverse kernels (conjugate twiddles, separate code)","src/otfft_avxdi[ft]*.h invcore/invend; src/otfft_mixedradix.h invfft/invfftp"),("scaling modes","src/otfft_misc.h scalepz")],
 obs=["ComplexFFT::inv/inv0/invu/invn through Factory::createComplexFFT"])
prop("C03","Real forward transform yields the full DFT spectrum and keeps its input",
 "For every even length and every real input, a real FFT object's forward transform writes all N complex bins of the DFT of the input, including the redundant upper half as the conjugate of the lower half, and real-valued DC and Nyquist bins, up to rounding, with the normalisation of the variant called (fwd0 none, fwd and fwdn 1/N, fwdu 1/sqrt(N)). The input array is left unmodified, and what the output array held before does not matter. This holds on every backend.",
 ["inputs","configurations"],"every even length N>=2, every finite real input, 3 backends, 4 forward variants, any prior content of the output array",
 "Tests check the lower half of one-sine spectra and half of a fwd0/invn round trip at a few lengths; the upper half, the Nyquist bin, fwdu, and preservation of the input are not compared at all.",
 ["src/otfft_algo.cpp","src/otfft_base.h"],
 [("half-length complex FFT plus split/merge with weights U","src/otfft_algo.cpp RFFT::setup, RFFT::fwd*"),("Hermitian fill of the upper half","src/otfft_algo.cpp RFFT::fwd*")],
 state=[("U","N+1 split weights","src/otfft_algo.cpp RFFT::setup")],
 obs=["RealFFT::fwd/fwd0/fwdu/fwdn"])
prop("C04","Real inverse transform recovers the real signal of a Hermitian spectrum",
 "For every even length and every Hermitian-symmetric spectrum, a real FFT object's inverse transform writes the N real samples of the inverse DFT, up to rounding, with the normalisation of the variant called (inv and inv0 none, invn 1/N, invu 1/sqrt(N)). Hence inv after fwd, invn after fwd0 and invu after fwdu give back every sample of the original signal. This holds on every backend, whatever the output array held before (the spectrum array may be destroyed).",
 ["inputs","configurations"],"every even length N>=2, every Hermitian spectrum, 3 backends, 4 inverse variants",
 "Only invn is exercised, only after fwd0, and only the first half of the samples is compared at 0.1 %.",
 ["src/otfft_algo.cpp"],
 [("inverse split and half-length inverse FFT, factor 2 handling per variant","src/otfft_algo.cpp RFFT::inv, invu, invn")],
 obs=["RealFFT::inv/inv0/invu/invn"])
prop("C05","DCT objects compute DCT-II and its inverse",
 "For every even length and every real input, the forward transform of a DCT object leaves for every k the sum over n of x[n]*cos(pi*k*(2n+1)/(2N)), up to rounding (fwd0 unnormalised; fwd and fwdn divided by N). The inverse transform is the matching DCT-III, so that inv (=inv0) exactly undoes fwd, and invn undoes fwd0, for every sample. This holds on every backend.",
 ["inputs","configurations"],"every even length N>=2, every finite real input, 3 backends, 6 variants",
 "Tests use constant/alternating inputs of one length and half of a fwd0/invn round trip at a few lengths; fwd, inv and the OpenMP-sized branches are not compared with a reference.",
 ["src/otfft_algo.cpp","src/otfft_base.h"],
 [("even/odd permutation, real FFT, rotation by V","src/otfft_algo.cpp DCT0::fwd, fwd0, inv, invn"),("weights V","src/otfft_algo.cpp DCT0::setup")],
 obs=["RealDCT::fwd/fwd0/fwdn/inv/inv0/invn"])
prop("C06","Bluestein objects compute the DFT of any natural length",
 "For every natural length, including large primes, every forward and inverse transform of a Bluestein object returns the DFT or inverse DFT of the caller's array, up to rounding, with the same eight normalisation variants as the ordinary complex FFT. It agrees with the ordinary complex FFT wherever both support the length, and inverse variants undo the matching forward variants. This holds on every backend.",
 ["inputs","configurations"],"every length N>=1, every finite complex input, 3 backends, 8 variants",
 "Tests run fwd0/invn round trips at a handful of lengths, comparing half of the array; chirp indices overflow-prone above 46341 and the OpenMP branches above 2^15 and 2^16 are not compared with a reference.",
 ["src/otfft_algo.cpp"],
 [("chirp multiplication and power-of-two convolution","src/otfft_algo.cpp Bluestein::fwd* / inv*"),("chirp weights W and convolution length L","src/otfft_algo.cpp Bluestein::setup")],
 obs=["Factory::createBluesteinFFT objects"])
prop("C07","A transform depends only on the current length and data, not on object history",
 "After any sequence of setup calls with supported lengths and transform calls in any order, a transform on an object gives the same result as on a freshly created object of the current length. Creating an object without a length and then calling setup is equivalent to creating it with that length. Other objects' lifetimes (creation, use, moves of the owning pointer, destruction, in any interleaving), and data of earlier transforms, including NaN, infinities, huge values and denormals, never influence the result.",
 ["histories"],"every finite history of create / setup / transform / move / destroy operations over any number of objects of the four kinds and three backends",
 "Tests create one object per case, mostly with its final length, and use it for one round trip; no test re-sizes an object or interleaves objects.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft_algo_sixstep.cpp","src/otfft_algo_dif8.cpp"],
 [("setup re-creates engine, weights and work area","src/otfft_algo.cpp *::setup; inc/otfft_complex.h simd_array::setup")],
 state=[("work areas and weight tables","sized for the current length, re-allocated on setup","src/otfft_base.h")],
 obs=["results of every transform call in the history"])
prop("C08","Transforms touch only the documented arrays, at any alignment, and leak nothing",
 "A transform of length N reads and writes only the N elements of each array the caller passes (and writes none of an input declared read-only), for arrays at any address aligned for double, including addresses that are not SIMD-aligned, with results independent of the alignment. Internally it never accesses memory outside its own live allocations and never depends on uninitialised memory. Repeatedly creating, re-sizing and destroying objects releases all memory they took.",
 ["inputs","configurations","histories"],"every length, variant, object kind, backend, buffer offset and create/setup/destroy cycle",
 "Unit tests run without guard pages or sanitizers, on std::vector buffers with one alignment, so overruns by a few elements and leaks are invisible.",
 ["src/otfft_misc.h","inc/otfft_complex.h","inc/otfft_types.h","src/otfft_algo.cpp","src/otfft_mixedradix.h"],
 [("unaligned loads and stores","inc/otfft_types.h USE_UNALIGNED_MEMORY; src/otfft_misc.h getpz2/setpz2"),("RAII arrays","inc/otfft_complex.h simd_array"),("loop strides matching even stride assumption","src/otfft_mixedradix.h")],
 obs=["guard pages and canaries around user and internal arrays; allocation ledger"])
prop("C09","Results do not depend on OpenMP thread count or schedule",
 "For every length, object kind, variant and backend, the result is the same, up to rounding, whatever number of OpenMP threads the library runs with and however those threads are scheduled relative to each other, and repeating a transform on equal input gives bit-identical output. Setting up an object under one thread count and using it under another is equally valid. No two library threads access the same memory without synchronisation when at least one writes.",
 ["schedules","configurations","inputs"],"thread counts 1..16 and more than cores, every relative order of threads between synchronisation points, all lengths above the parallel thresholds (2^13 .. 2^19 depending on the engine)",
 "Tests run with one thread count under whatever schedule happens; a missing barrier or a shared temporary shows only under particular thread counts and interleavings.",
 ["src/otfft_mixedradix.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_avxdif8omp.h","src/otfft_avxdit8omp.h","src/otfft_algo.cpp","src/otfft_algo_sixstep.cpp"],
 [("implicit barriers of omp for, nowait only where independent","src/otfft_mixedradix.h *p functions"),("parallel weight initialisation","src/otfft_algo.cpp, src/otfft_misc.h init_W*")],
 obs=["transform output under a deterministic adversarial OpenMP runtime, under the real one, and race reports"])
prop("C10","Objects are independent across threads; scratch-free objects can be shared",
 "Any number of application threads may concurrently create, set up, use and destroy their own objects, of any kind, length and backend, each getting the result it would get alone, whether the threads are the application's own, or belong to an OpenMP parallel region of the application. An object may be handed from one thread to another, which may set it up again, use or destroy it even after the thread that created it has ended. A real-FFT object, which keeps no work area, may also be used concurrently by several threads on different arrays; so may the documented multi-thread objects that take the work area as an argument (the complex one taking x,y and the DCT one taking x,y,z). Such use is free of data races.",
 ["schedules","histories"],"every number of application threads and every interleaving of object operations across them",
 "All tests are single-threaded.",
 ["src/otfft_algo.cpp","src/otfft_base.h","src/otfft.cpp","README.md"],
 [("no mutable static or shared state; const transforms","src/otfft_algo.cpp"),("caller-supplied work areas","src/otfft_base.h FFT0, DCT0"),("thread-safe static CPU probe","src/otfft.cpp sysinfo::instance")],
 obs=["per-thread results against a reference; race detector"])
prop("C11","The factory picks the right backend for the CPU and never runs unsupported code",
 "For every architecturally consistent combination of CPU feature bits and operating-system register state (OSXSAVE and AVX only with XSAVE, AVX2 only with AVX, AVX only with SSE2, XCR0 bit 0 set, AVX state enabled only with SSE state), requesting a specific instruction set yields an object of exactly that backend if the CPU and the OS support it and otherwise throws std::domain_error; AUTO yields the widest supported backend. In a library configured with only some of the backends the same holds among those. The probe itself executes no instruction the CPU or OS state does not support, and whatever the factory returned works and is destroyed correctly through its owning pointer. This is the same for all four kinds of object, and at any time in the program's life, including static initialisation before main and termination after it.",
 ["configurations"],"all combinations of CPUID maximum leaf, SSE2/XSAVE/OSXSAVE/AVX/AVX2 bits and XCR0 state; 4 object kinds x 4 requested types x 7 subsets of backends",
 "The tests run on one machine with one feature set, so every fallback, refusal and probe branch is unexecuted.",
 ["src/otfft.cpp","inc/otfft.h","src/otfft_factory.h"],
 [("CPUID/XGETBV probe","src/otfft.cpp sysinfo"),("dispatch chains","src/otfft.cpp Factory::create*"),("deleter","src/otfft.cpp unique_ptr_delete")],
 obs=["dynamic type of the returned object, exceptions, executed probe instructions under emulated CPUID/XGETBV"])
prop("C12","Allocation failure surfaces as std::bad_alloc and leaves everything recoverable",
 "If any memory allocation made while creating or re-sizing an object fails, the caller gets std::bad_alloc and nothing else happens: no crash, no leak, no corruption of other objects. An object whose setup failed can be destroyed, or set up again and then used, giving correct results. Transform calls themselves never fail for want of memory.",
 ["fault_sequences","histories"],"every single failing allocation (and runs of failing allocations) in every creation and setup of every object kind, backend and length class, followed by any recovery history",
 "No test injects allocation failures.",
 ["inc/otfft_complex.h","src/otfft_algo.cpp","src/otfft_algo_sixstep.cpp"],
 [("bad_alloc on null and pointer cleared before the throw","inc/otfft_complex.h simd_array"),("engine dropped on failure","src/otfft_algo.cpp FFT0::setup")],
 obs=["exception type, allocation ledger, results after recovery"])
prop("C13","All interchangeable FFT engines agree at every length they accept",
 "Every FFT engine of every backend (the radix-4, 8 and 16 decimation-in-frequency and decimation-in-time ones, the six/eight-step one and the mixed-radix one) computes the same eight transforms, equal to the DFT or inverse DFT with the stated normalisation up to rounding, at every power-of-two length it accepts, using only the caller's data array and an equally long work array. So choosing another engine for a length, as the per-length tuning table does, never changes results beyond rounding.",
 ["inputs","configurations"],"9 engines-by-radix x 3 backends x 8 variants x every power of two up to 2^24 x any thread count",
 "The public entry points reach each length through one engine only; the other engines and their OpenMP versions are compiled but never executed by any test.",
 ["src/otfft_if.h","src/otfft_algo_dif4.cpp","src/otfft_algo_dif8.cpp","src/otfft_algo_dif16.cpp","src/otfft_algo_dit4.cpp","src/otfft_algo_dit8.cpp","src/otfft_algo_dit16.cpp","src/otfft_algo_sixstep.cpp","src/otfft_algo_mixed.cpp","src/otfft_avxdif16omp.h","src/otfft_avxdit16omp.h","src/otfft_avxdit16.h"],
 [("engine interface","src/otfft_if.h FFT_IF"),("per-length switch in each engine","src/otfft_algo_d*.cpp FFT0::fwd*/inv*")],
 obs=["engine instance() objects: setup/setup2 and the 8 transforms"])
prop("C14","Transforms stay correct at very large lengths",
 "Transforms remain correct when the length or a prime factor of it is large enough that products of indices no longer fit the integer types that hold the indices: complex, real and DCT lengths of tens of millions and more up to the documented 2^30, Bluestein lengths up to 2^28, and complex lengths with prime factors above 46341. All elements of the result are right, as for small lengths, and no access leaves the arrays.",
 ["inputs"],"every length up to the documented maximum that fits in memory (2^25..2^28 explored), large prime factors, all kinds and backends",
 "Tests stop well below these lengths; index overflow appears only above specific magnitudes.",
 ["src/otfft_mixedradix.h","src/otfft_algo.cpp","src/otfft_algo_sixstep.cpp","inc/otfft_complex.h"],
 [("mixed radix for lengths beyond the power-of-two engines","src/otfft_algo.cpp FFT0::setup default"),("64-bit chirp index","src/otfft_algo.cpp Bluestein::fwd"),("index products modulo a prime factor","src/otfft_mixedradix.h *any*")],
 obs=["outputs on signals with closed-form spectra"])
prop("C15","Transforms are accurate to rounding and exactly homogeneous",
 "The relative error of every transform, measured in the Euclidean norm, stays within a small multiple of machine epsilon times log2 of the length (times the square root of a large prime factor where one is processed directly), for every kind of object, length and backend. Multiplying the input by a power of two, or negating it, multiplies or negates the output exactly, as long as nothing over- or underflows; a zero input gives a zero output. The backends agree with one another within the same bound.",
 ["inputs"],"every length, kind, backend and variant; inputs at magnitudes from 2^-700 to 2^700, sparse, dense, constant, alternating, and with wide dynamic range",
 "Tests allow 0.1 % error on values around 1..100, so losing ten of the sixteen digits, or an additive constant, passes.",
 ["src/otfft_misc.h","src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_algo_sixstep.cpp"],
 [("twiddle tables from direct sin/cos","src/otfft_misc.h init_W*, expj"),("constants such as sqrt(1/2)","src/otfft_misc.h")],
 obs=["outputs against an extended-precision reference and against scaled inputs"])
prop("C16","The complex type and SIMD array behave as complex numbers and owned arrays",
 "For all finite operands whose squares, products and quotients neither overflow nor underflow, the library's complex number type agrees, up to rounding, with standard complex arithmetic in every operator and function it offers (construction and conversion from and to std::complex, compound assignment, sum, difference, product, quotient, scaling, conjugate, norm, absolute value, argument, polar and unit-circle construction, multiplication by plus or minus i, negation). It has the memory layout of two consecutive doubles. The aligned array helper returns writable, SIMD-aligned storage for the requested number of elements, can be re-sized or destroyed any number of times, and releases its storage.",
 ["inputs","histories"],"all finite operands within that range, all histories of array setup/destroy",
 "No test touches the complex type's arithmetic or the array helper directly.",
 ["inc/otfft_complex.h","inc/otfft_types.h"],
 [("inline operators","inc/otfft_complex.h complex_t"),("simd_malloc/simd_free/simd_array","inc/otfft_complex.h")],
 obs=["return values; allocation ledger"])
prop("C17","Every supported way of compiling the sources gives the same transforms",
 "Each backend's sources compute correct transforms (forward and inverse, complex, real, DCT and Bluestein, any length, normalisation and thread count) whichever of the supported instruction sets, compilers and threading modes they are compiled for: portable code without SIMD intrinsics, SSE2, SSE3, AVX, AVX with fused multiply-add, AVX2, AVX-512, single-threaded, with or without OpenMP, with GCC or Clang. The choice changes speed and last-digit rounding only.",
 ["inputs","configurations"],"every configuration the preprocessor conditions distinguish x all kinds, lengths and variants",
 "The tests run the default configuration only; the code under the other preprocessor branches is not even compiled by the build.",
 ["src/otfft_misc.h","src/otfft_if.h","src/otfft_eightstep.h","src/otfft_sixstep.h","inc/otfft_complex.h","CMakeLists.txt"],
 [("instruction-set branches","src/otfft_misc.h #if __AVX512F__ / __FMA__ / __SSE3__ / no SSE"),("single-thread switch","DO_SINGLE_THREAD and _OPENMP branches")],
 obs=["outputs of the public transforms in each build"])
prop("C18","Cost grows as N log N in work and as N in memory",
 "A transform of any length N reads and writes memory a number of times at most proportional to N log N (for the mixed-radix transform, to N times the sum of the prime factors; for Bluestein's algorithm of any length, prime or not, still N log N), independently of the data. Creating an object costs no more than proportionally to N log N, and the object holds memory at most proportional to N. A transform allocates nothing, and neither needs stack space that grows with N.",
 ["inputs"],"all lengths, including primes, powers of every small prime, smooth and composite ones, for every kind and variant",
 "Tests measure results only; a slow path that is correct passes at the small lengths the tests use.",
 ["src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_algo_mixed.cpp","inc/otfft_complex.h"],
 [("per-length choice of engine","src/otfft_algo.cpp FFT0::setup"),("Bluestein's convolution length","src/otfft_algo.cpp Bluestein::setup"),("radix choice","src/otfft_mixedradix.h")],
 obs=["number of memory accesses and allocated bytes per call"])
prop("C19","Transforms work in, and preserve, the caller's floating-point environment",
 "Creating, using and destroying objects leaves the floating-point control state of the calling thread (rounding direction, flush-to-zero, exception masks, x87 control word and stack) as it was, and depends on it only to the extent of rounding: results are right under every rounding direction and with denormals flushed to zero. With finite data of moderate size no invalid, divide-by-zero or overflow exception is raised, so a program that enables traps for these is never interrupted.",
 ["configurations","inputs"],"every rounding direction, flush-to-zero and trap setting at creation and at use x all kinds, lengths, variants and backends",
 "Tests run in the default floating-point environment only.",
 ["src/otfft_misc.h","src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_algo_sixstep.cpp","CMakeLists.txt"],
 [("-frounding-math, -fsignaling-nans","CMakeLists.txt"),("twiddle and chirp tables","src/otfft_misc.h, src/otfft_algo.cpp"),("normalisation by 1/N","src/otfft_mixedradix.h, engines")],
 obs=["MXCSR, x87 control and status words, SIGFPE, outputs"])
prop("C20","Library calls change nothing else in the process",
 "Creating, setting up, using and destroying objects affects nothing in the process but the documented arrays and the object's own memory. It prints nothing on standard output or error and creates, writes or removes no file; it leaves as they were the program's OpenMP settings (thread count, dynamic adjustment, nesting limit, run-time schedule), CPU affinity and scheduling, signal mask and handlers, locale, environment, working directory, resource limits, random-number generators (rand, drand48), stream formatting state, and open files; and it starts or signals no process. Results are right whatever those settings are.",
 ["configurations","inputs"],"every kind, length, backend and variant x every setting of OpenMP (threads, dynamic, nesting, schedule), signals, locale and streams",
 "Tests look at the transformed arrays only, in a process with default settings.",
 ["src/otfft.cpp","src/otfft_algo.cpp","src/otfft_factory.h","src/otfft_misc.h","inc/otfft_complex.h"],
 [("OpenMP regions and CPU count","src/otfft_algo.cpp, src/otfft.cpp sysinfo"),("error reporting by exceptions only","src/otfft.cpp")],
 obs=["process state before and after every call; captured output; trapped system calls"])
prop("C21","The whole double range is usable and non-finite data are never hidden",
 "Transforms are as accurate for data of any magnitude as for data around one, from sums just below overflow (for Bluestein objects, N^3 below it) down to where denormal numbers cannot carry the digits. A NaN or infinity in the input makes every output component in which that input component has a non-zero weight non-finite: it is never replaced, skipped or dropped, whatever the kind of object, length, variant and backend. The next transform of finite data on the same object is not affected.",
 ["inputs"],"every kind, length, variant and backend x one non-finite component at every place; data scaled by every power of two that neither overflows nor is lost in denormals",
 "Tests use values around 1 to 100 only.",
 ["src/otfft_mixedradix.h","src/otfft_algo.cpp","src/otfft_algo_sixstep.cpp","inc/otfft_complex.h","CMakeLists.txt"],
 [("-fno-finite-math-only, -fsignaling-nans","CMakeLists.txt"),("butterflies use additions and multiplications only, never squares or comparisons","src/otfft_mixedradix.h, src/otfft_avxdi[ft]*.h"),("normalisation by 1/N applied to small and large data","src/otfft_misc.h scalepz")],
 obs=["outputs for scaled and for non-finite inputs"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(p) for p in P)+"\n")
