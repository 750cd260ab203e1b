// C11: CPU dispatch. otfft.cpp is assembled with a trapping instruction in front of every CPUID and
// XGETBV; the handler emulates a generated CPU. Every configuration runs in a process of its own,
// because the probe result is kept for the life of the process.
#include "xf.h"
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <stdexcept>
#include <typeinfo>
#include <atomic>
using namespace OTFFT;
namespace {
struct Cpu { bool emulate; uint32_t maxleaf, ecx1, edx1, ebx7, xcr0; } cpu;
volatile int n_cpuid, n_xgetbv, bad_xgetbv;
volatile int bad_xcr;
void on_ill(int, siginfo_t*, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_; greg_t* r = uc->uc_mcontext.gregs; const unsigned char* ip = (const unsigned char*)r[REG_RIP];
    if (!(ip[0] == 0x0f && ip[1] == 0x0b)) { signal(SIGILL, SIG_DFL); return; }
    if (ip[2] == 0x0f && ip[3] == 0xa2) {
        n_cpuid++;
        if (!cpu.emulate) { r[REG_RIP] += 2; return; }
        uint32_t leaf = (uint32_t)r[REG_RAX], sub = (uint32_t)r[REG_RCX], a = 0, b = 0, c = 0, d = 0;
        if (leaf >= 0x80000000u) { if (leaf == 0x80000000u) a = 0x80000008u; }
        else {
            bool beyond = leaf > cpu.maxleaf;
            if (leaf == 0) { a = cpu.maxleaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; }
            else if (beyond) { a = b = c = d = 0xFFFFFFFFu; }          // data of another leaf, meaningless
            else if (leaf == 1) { a = 0x000506e3; c = cpu.ecx1; d = cpu.edx1; }
            else if (leaf == 7 && sub == 0) { b = cpu.ebx7; }
            else if (leaf == 7) { b = ~cpu.ebx7; }
            else { a = b = c = d = 0; }
        }
        r[REG_RAX] = a; r[REG_RBX] = b; r[REG_RCX] = c; r[REG_RDX] = d; r[REG_RIP] += 4;
        return;
    }
    if (ip[2] == 0x0f && ip[3] == 0x01 && ip[4] == 0xd0) {
        n_xgetbv++;
        if (!cpu.emulate) { r[REG_RIP] += 2; return; }
        if (!(cpu.maxleaf >= 1 && (cpu.ecx1 & (1u << 27)))) bad_xgetbv = 1;    // would be #UD
        if ((uint32_t)r[REG_RCX] != 0) bad_xcr = 1;
        r[REG_RAX] = cpu.xcr0; r[REG_RDX] = 0; r[REG_RIP] += 5;
        return;
    }
    signal(SIGILL, SIG_DFL);
}
// ---- single stepping
extern "C" char __executable_start, etext;
volatile long steps, bad_op; volatile uintptr_t bad_ip; int step_level; // 0 sse2, 1 avx
void on_trap(int, siginfo_t*, void* uc_)
{
    greg_t* r = ((ucontext_t*)uc_)->uc_mcontext.gregs; const unsigned char* p = (const unsigned char*)r[REG_RIP];
    steps++;
    if (p < (const unsigned char*)&__executable_start || p >= (const unsigned char*)&etext) return;
    while (*p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x36) p++;
    bool vex = *p == 0xc5 || *p == 0xc4, evex = *p == 0x62;
    if (!vex && !evex) return;
    bool bad = true;
    if (step_level >= 1 && vex) {
        int map, pp, L, op; const unsigned char* q;
        if (*p == 0xc5) { map = 1; pp = p[1] & 3; L = (p[1] >> 2) & 1; op = p[2]; q = p + 3; }
        else { map = p[1] & 31; pp = p[2] & 3; L = (p[2] >> 2) & 1; op = p[3]; q = p + 4; }
        bad = false;
        if (map == 2) {
            int lo = op & 15, hi = op >> 4;
            if ((hi == 9 || hi == 10 || hi == 11) && lo >= 6) bad = true;              // FMA
            if (op == 0x58 || op == 0x59 || op == 0x5a || op == 0x78 || op == 0x79 || op == 0x16 || op == 0x36 || op == 0x45 || op == 0x46 || op == 0x47 || op == 0x8c || op == 0x8e || (op >= 0x90 && op <= 0x93)) bad = true;
            if ((op == 0x18 || op == 0x19) && (q[0] >> 6) == 3) bad = true;
            if (op == 0xf2 || op == 0xf3 || op == 0xf5 || op == 0xf6 || op == 0xf7) bad = true; // BMI
        }
        if (map == 3 && (op <= 2 || op == 0x38 || op == 0x39 || op == 0x46 || op == 0xf0)) bad = true;
        if (map == 1 && L && pp == 1 && ((op >= 0x60 && op <= 0x6d) || (op >= 0x74 && op <= 0x76) || (op >= 0xd1 && op <= 0xd5) || (op >= 0xd8 && op <= 0xe5) || (op >= 0xe8 && op <= 0xef) || (op >= 0xf1 && op <= 0xfe))) bad = true;
    }
    if (bad && !bad_op) { bad_op = 1; bad_ip = r[REG_RIP]; }
}
void tf(bool on)
{
    if (on) asm volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
    else asm volatile("pushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
}
std::string backend_of(const char* tn) { std::string s(tn); if (s.find("OTFFT_AVX2") != s.npos) return "avx2"; if (s.find("OTFFT_SSE2") != s.npos) return "sse2"; if (s.find("OTFFT_AVX") != s.npos) return "avx"; return "?" + s; }
template <class F> std::string in_child(F f, int tmo = 120)
{
    int fd[2]; if (pipe(fd)) return "pipe";
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); alarm(tmo);
        std::string r = f(); if (!r.empty()) { ssize_t w = write(fd[1], r.data(), r.size()); (void)w; }
        _exit(0);
    }
    close(fd[1]); std::string out; char b[512]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) out += fmt(" [child killed by signal %d]", WTERMSIG(st));
    return out;
}
std::string obj_backend(Obj& o) { if (o.c) { auto& x = *o.c; return backend_of(typeid(x).name()); } if (o.r) { auto& x = *o.r; return backend_of(typeid(x).name()); } auto& x = *o.d; return backend_of(typeid(x).name()); }
std::string use(Obj& o, long n, uint64_t seed)
{
    for (auto op : {"fwd0", "invn"}) {
        bool inv = op_inverse(op); const XRef& R = xref(o.kind, inv, n, "uni", seed);
        std::vector<double> a(2 * n), b(2 * n); std::copy(R.in.begin(), R.in.end(), a.begin());
        obj_run(o, op, a.data(), b.data());
        double e = rel_err(o.kind == 'r' ? b.data() : a.data(), R.ref, op_scale(op, n), R.innorm, R.zero);
        if (!(e <= tol_loose(o.kind, n))) return fmt("object of kind %c computes a wrong %s (error %.3g)", o.kind, op, e);
    }
    return "";
}
bool built(const std::string& be)       // the backends this copy of the library was built with
{
#ifdef OTFFT_WITH_SSE2
    if (be == "sse2") return true;
#endif
#ifdef OTFFT_WITH_AVX
    if (be == "avx") return true;
#endif
#ifdef OTFFT_WITH_AVX2
    if (be == "avx2") return true;
#endif
    return be == "auto";
}
void install() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGILL, &sa, nullptr); }
// A probe made during static initialisation: the handler is there first, and a generated CPU can be given in H_EMU.
__attribute__((constructor(101))) void early()
{
    if (const char* e = getenv("H_EMU")) { unsigned a = 0, b = 0, c = 0, d = 0, x = 0; sscanf(e, "%u,%u,%u,%u,%u", &a, &b, &c, &d, &x); cpu = Cpu{true, a, b, c, d, x}; }
    install();
}
std::string emu_exec(const Case& c)     // the same case in a new process image, for a library that probes before main
{
    char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if (k <= 0) return "untrapped"; exe[k] = 0;
    setenv("H_EMU", fmt("%u,%u,%u,%u,%u", (unsigned)c.u64("leaf"), (unsigned)c.u64("ecx1"), (unsigned)c.u64("edx1"), (unsigned)c.u64("ebx7"), (unsigned)c.u64("xcr0")).c_str(), 1);
    FILE* p = popen(fmt("'%s' one '%s' 60", exe, c.str().c_str()).c_str(), "r"); if (!p) return "untrapped";
    std::string out; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
    int st = pclose(p); while (!out.empty() && out.back() == '\n') out.pop_back();
    if (out.find("untrapped") != out.npos) return "untrapped";
    if (out.rfind("OK", 0) == 0) return "";
    return out.empty() ? fmt("a program on this CPU ends before main (status %d)", st) : out;
}
std::string emu_case(const Case& c)
{
    cpu = Cpu{true, (uint32_t)c.u64("leaf"), (uint32_t)c.u64("ecx1"), (uint32_t)c.u64("edx1"), (uint32_t)c.u64("ebx7"), (uint32_t)c.u64("xcr0")};
    install(); if (!getenv("H_EMU")) n_cpuid = n_xgetbv = bad_xgetbv = bad_xcr = 0;
    bool sse2 = cpu.maxleaf >= 1 && (cpu.edx1 & (1u << 26));
    bool os = cpu.maxleaf >= 1 && (cpu.ecx1 & (1u << 27)) && (cpu.xcr0 & 6) == 6;
    bool avx = os && (cpu.ecx1 & (1u << 28)), avx2 = avx && cpu.maxleaf >= 7 && (cpu.ebx7 & 32);
    sse2 &= built("sse2"); avx &= built("avx"); avx2 &= built("avx2");
    std::string widest = avx2 ? "avx2" : avx ? "avx" : sse2 ? "sse2" : "";
    std::string kinds = c.get("kinds", "crdb"); long n = c.num("n", 16);
    for (auto be : {"auto", "sse2", "avx", "avx2"}) for (char k : kinds) {
        if (!built(be)) continue;
        std::string b = be, want = b == "auto" ? widest : b == "sse2" ? (sse2 ? "sse2" : "") : b == "avx" ? (avx ? "avx" : "") : (avx2 ? "avx2" : "");
        Obj o; std::string got;
        try { obj_create(o, k, b, n); got = obj_backend(o); }
        catch (const std::domain_error&) { got = ""; }
        catch (const std::exception& e) { return fmt("requesting %s for kind %c threw something else: %s", be, k, e.what()); }
        if (n_cpuid + n_xgetbv == 0) return getenv("H_EMU") ? "untrapped" : emu_exec(c);
        if (bad_xgetbv) return "the probe executed XGETBV although CPUID reports no OSXSAVE (undefined opcode)";
        if (bad_xcr) return "the probe read an extended control register other than 0";
        if (got != want) return fmt("requesting %s for kind %c gave %s, expected %s", be, k, got.empty() ? "domain_error" : got.c_str(), want.empty() ? "domain_error" : want.c_str());
        if (o.live()) { std::string u = use(o, n, 7); if (!u.empty()) return u; obj_destroy(o); if (o.live()) return "object not destroyed"; }
    }
    return "";
}
std::string step_case(const Case& c)
{
    // single-step an object of one backend through creation, every transform, re-setup and destruction
    cpu = Cpu{true, 22, 0, 0x078bfbff, 0, 7}; std::string be = c.get("be");
    cpu.ecx1 = be == "avx" ? 0x1c180201u : 0x00180201u;
    install(); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
    step_level = be == "avx"; char k = c.get("kind")[0]; long n = c.num("n"), n2 = c.num("n2", n);
    std::vector<double> a(2 * (n > n2 ? n : n2) + 8), b(a.size());
    vomp_set(1, 0);
    { Obj w; try { obj_create(w, k, be, 4); } catch (const std::domain_error&) { return "untrapped"; } if (obj_backend(w) != be) return "untrapped"; }
    Obj o; auto& ops = ops_of(k); va_mode(AM_PASS);
    tf(true);
    obj_create(o, k, be, n);
    tf(false);
    for (int round = 0; round < 2; round++) {
        for (auto& op : ops) { tf(true); obj_run(o, op, a.data(), b.data()); tf(false); }
        if (round == 0) { tf(true); obj_setup(o, n2); tf(false); }
    }
    tf(true); obj_destroy(o); tf(false);
    if (bad_op) { const unsigned char* p = (const unsigned char*)bad_ip; return fmt("%s object of length %ld executed an instruction outside its instruction set at %#lx: %02x %02x %02x %02x %02x", be.c_str(), n, (unsigned long)(bad_ip - (uintptr_t)&__executable_start), p[0], p[1], p[2], p[3], p[4]); }
    if (steps < 1000) return "untrapped";
    return "";
}
void b_fac(const Case& c)
{
    std::string id = c.str(); sub_begin(id);
    std::string r = in_child([&] { return emu_case(c); });
    if (r == "untrapped" && getenv("H_EMU")) { puts("untrapped"); return; }
    if (r == "untrapped") { tally("probe not trappable, emulation skipped"); sub_done(id, false); return; }
    if (!r.empty()) sub_fail(id, r);
    bool os = c.u64("ecx1") >> 27 & 1; tally(!os ? "no OSXSAVE" : (c.u64("xcr0") & 6) != 6 ? "OS does not save ymm" : (c.u64("ebx7") & 32) ? "AVX2 bit" : "no AVX2 bit");
    tally(fmt("max leaf %s", c.u64("leaf") < 1 ? "0" : c.u64("leaf") < 7 ? "1..6" : ">=7"));
    sub_done(id, true);
}
void b_step(const Case& c)
{
    std::string id = c.str(); sub_begin(id);
    std::string r = in_child([&] { return step_case(c); }, 800);
    if (r == "untrapped") { tally("single step skipped"); sub_done(id, false); return; }
    if (!r.empty()) sub_fail(id, r);
    tally("single-stepped " + c.get("be")); sub_done(id, true);
}
void b_native(const Case& c)
{
    std::string id = c.str(); sub_begin(id);
    std::string r = in_child([&]() -> std::string {
        cpu.emulate = false; install();
        bool a2 = __builtin_cpu_supports("avx2") && built("avx2"), a1 = __builtin_cpu_supports("avx") && built("avx");
        for (auto be : {"auto", "sse2", "avx", "avx2"}) for (char k : std::string("crdb")) {
            if (!built(be)) continue;
            std::string b = be, want = b == "auto" ? (a2 ? "avx2" : a1 ? "avx" : built("sse2") ? "sse2" : "") : b == "avx2" && !a2 ? "" : b == "avx" && !a1 ? "" : b;
            Obj o; std::string got; try { obj_create(o, k, b, 24); got = obj_backend(o); } catch (const std::domain_error&) {}
            if (got != want) return fmt("on this machine requesting %s for kind %c gave %s, expected %s", be, k, got.c_str(), want.c_str());
            if (o.live()) { std::string u = use(o, 24, 3); if (!u.empty()) return u; }
        }
        return ""; });
    if (!r.empty()) sub_fail(id, r);
    sub_done(id, true);
}
RegB r1("fac", b_fac), r2("step", b_step), r3("native", b_native);
RegP p("C11", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 77 + 5); bool full = built("sse2") && built("avx") && built("avx2");
    if (!full) g = Rng(seed * 99 + built("sse2") + 2 * built("avx") + 4 * built("avx2"));
    out.push_back("native");
    std::vector<long> ns{1, 2, 3, 4, 8, 16, 30, 49, 32, 64, 128, 256, 100, 512, 1024, 360, 2048, 4096};
    if (th) for (long n : {8192L, 16384L, 32768L, 65536L, 1000L, 77L, 40000L, 131072L}) ns.push_back(n);
    if (full) for (auto be : {"sse2", "avx"}) for (char k : std::string("crdb")) for (size_t i = ns.size(); i-- > 0;) { long n = ns[i]; if (!th && n >= 2048 && (k != 'c')) continue; if (k == 'b' && n > 1024) continue; if ((k == 'r' || k == 'd') && n % 2) n++; long n2 = k == 'b' ? 5 : 12; out.push_back(Case{"step", {}}.set("be", be).set("kind", std::string(1, k)).set("n", n).set("n2", n2).str()); }
    auto cfg = [&](uint32_t leaf, uint32_t ecx, uint32_t edx, uint32_t ebx, uint32_t xcr) {
        // architecturally consistent: OSXSAVE and AVX need XSAVE, AVX2 needs AVX, AVX needs SSE2, XCR0 has bit 0 and AVX state implies SSE state
        if (ecx & (1u << 28)) { ecx |= 1u << 26; edx |= 1u << 26 | 1u << 25; } else ebx &= ~32u;
        if (ecx & (1u << 27)) ecx |= 1u << 26;
        if (edx & (1u << 26)) edx |= 1u << 25;
        xcr |= 1; if (xcr & 4) xcr |= 2; if (!(ecx & (1u << 26))) ecx &= ~(1u << 27);
        Case c; c.word = "fac"; out.push_back(c.setu("leaf", leaf).setu("ecx1", ecx).setu("edx1", edx).setu("ebx7", ebx).setu("xcr0", xcr).set("n", (long)g.pick({2, 4, 6, 8, 12, 16, 64, 100})).str()); };
    // every combination of the bits that matter, the others random
    for (int leaf : {0, 1, 6, 7, 13, 32}) if (full || th || leaf == 1 || leaf == 7) for (int m = 0; m < 64; m++) for (int rep = 0; rep < (th ? 6 : 1); rep++) {
        uint32_t noise = (uint32_t)g.next(), n2 = (uint32_t)g.next(), n3 = (uint32_t)g.next();
        uint32_t bits = 1u << 26 | 1u << 27 | 1u << 28;
        uint32_t ecx = (noise & ~bits) | (m & 1 ? 1u << 26 : 0) | (m & 2 ? 1u << 27 : 0) | (m & 4 ? 1u << 28 : 0);
        cfg(leaf, ecx, (n2 & ~(1u << 26)) | (m & 8 ? 1u << 26 : 0), (n3 & ~32u) | (m & 16 ? 32 : 0), m & 32 ? 7 : (uint32_t)g.pick({1, 3, 1 | 8, 3 | 8 | 16, 3 | 0xe0})); }
    for (int i = 0; i < (th ? 6000 : 600) / (full ? 1 : 6); i++) cfg((uint32_t)g.pick({0, 1, 2, 5, 6, 7, 7, 7, 13, 20, 32}), (uint32_t)g.next(), (uint32_t)g.next() | (g.chance(.8) ? 1u << 26 : 0), (uint32_t)g.next(), (uint32_t)g.pick({1, 3, 7, 7, 7, 0xe7, 0x1f, 0xe3}) | ((uint32_t)g.next() & 0x100));
});
}
