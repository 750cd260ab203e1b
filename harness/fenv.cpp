// C19: the caller's floating-point environment. Objects are created and used under every rounding mode, with denormals
// flushed, and with traps enabled; the environment must be the same afterwards and the results right.
#include "xf.h"
#include <cfenv>
#include <xmmintrin.h>
#include <signal.h>
#include <setjmp.h>
#include <algorithm>
static sigjmp_buf jb; static volatile int armed;
static void on_fpe(int, siginfo_t* si, void*) { if (armed) siglongjmp(jb, si->si_code ? si->si_code : 99); signal(SIGFPE, SIG_DFL); }
struct Mode { const char* name; unsigned csr; unsigned short cw; };
// MXCSR: rounding control bits 13-14, FTZ 15, DAZ 6, masks 7-12.   x87: rounding 10-11, masks 0-5
static const Mode MODES[] = {
    {"near", 0x1f80, 0x037f}, {"down", 0x3f80, 0x077f}, {"up", 0x5f80, 0x0b7f}, {"zero", 0x7f80, 0x0f7f},
    {"ftz", 0x9fc0, 0x037f},                                     // flush to zero, denormals are zero
    {"trap", 0x1f80 & ~(0x80u | 0x200u | 0x400u), 0x037f & ~(1 | 4 | 8)},   // invalid, divide by zero, overflow trap
};
static const Mode& mode(const std::string& s) { for (auto& m : MODES) if (s == m.name) return m; return MODES[0]; }
struct Env {
    unsigned csr; unsigned short cw;
    static void put(unsigned c, unsigned short w) { asm volatile("fnclex\n\tfldcw %0" ::"m"(w)); asm volatile("ldmxcsr %0" ::"m"(c)); }
    explicit Env(const Mode& m) : csr(m.csr), cw(m.cw) { asm volatile("" ::: "memory"); put(csr, cw); asm volatile("" ::: "memory"); }
    std::string check()     // and back to normal
    {
        asm volatile("" ::: "memory"); unsigned c = 0; unsigned short w = 0, sw = 0;
        asm volatile("stmxcsr %0" : "=m"(c)); asm volatile("fnstcw %0" : "=m"(w)); asm volatile("fnstsw %0" : "=m"(sw));
        put(0x1f80, 0x037f);
        if ((c & ~0x3fu) != (csr & ~0x3fu)) return fmt("the SSE control register was %#x and is %#x afterwards", csr & ~0x3fu, c & ~0x3fu);
        if ((w & 0xf3f) != (cw & 0xf3f)) return fmt("the x87 control word was %#x and is %#x afterwards", cw, w);
        if (c & (1 | 4 | 8)) return fmt("raised floating-point exceptions:%s%s%s", c & 1 ? " invalid" : "", c & 4 ? " divide-by-zero" : "", c & 8 ? " overflow" : "");
        if ((sw >> 11 & 7) != 0) return "left values on the x87 stack";
        return "";
    }
};
template <class F> static std::string under(const Mode& m, F f)
{
    int sig = 0;
    if ((sig = sigsetjmp(jb, 1)) == 0) { Env e(m); armed = 1; f(); armed = 0; return e.check(); }
    armed = 0; Env::put(0x1f80, 0x037f);
    return fmt("trapped on a floating-point exception (%s)", sig == FPE_FLTDIV ? "divide by zero" : sig == FPE_FLTOVF ? "overflow" : sig == FPE_FLTINV ? "invalid operation" : "other");
}
static void b_fenv(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); std::string sig = c.get("sig", "uni"); uint64_t seed = c.u64("seed", 1);
    auto ops = c.list("op"), bes = c.list("be"), ms = c.list("m"); const Mode& cm = mode(c.get("cm", "near"));
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fpe; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGFPE, &sa, nullptr);
    va_mode(AM_PASS); vomp_set(1, 0); double tol = 4 * tol_loose(kind, n);
    UBuf a(std::max(in_len(kind, false, n), in_len(kind, true, n)), 0), b(kind == 'r' ? 2 * n : 0, 0);
    for (int dir = 0; dir < 2; dir++) {
        std::vector<std::string> dops; for (auto& o : ops) if ((int)op_inverse(o) == dir) dops.push_back(o);
        if (dops.empty()) continue;
        const XRef& R = xref(kind, dir, n, sig, seed);
        for (auto& be : bes) {
            Case s = c; s.set("be", be).set("op", dops[0]).set("m", ms[0]); std::string id = s.str(); sub_begin(id);
            Obj o; std::string r = under(cm, [&] { obj_create(o, kind, be, n); });
            if (!r.empty()) { sub_fail(id, std::string("creating the object under mode ") + cm.name + ": " + r); if (!o.live()) return; }
            for (auto& op : dops) for (auto& m : ms) {
                s.set("op", op).set("m", m); id = s.str(); sub_begin(id);
                a.fill_garbage(0); a.load(R.in); if (kind == 'r') b.fill_garbage(0);
                r = under(mode(m), [&] { obj_run(o, op, a.p, b.p); });
                const double* out = kind == 'r' ? b.p : a.p; double e = rel_err(out, R.ref, op_scale(op, n), R.innorm, R.zero);
                note_max("err/tol " + m, e / tol);
                if (!r.empty()) sub_fail(id, "under mode " + m + ": " + r);
                else if (!(e <= tol)) sub_fail(id, fmt("created under mode %s, used under mode %s: relative error %.3g exceeds %.3g", cm.name, m.c_str(), e, tol));
                sub_done(id, n >= 2 && !R.zero); tally("used under " + m); tally(std::string("created under ") + cm.name); tally(fmt("kind %c", kind));
                if (sub_enough()) { obj_destroy(o); return; }
            }
            r = under(cm, [&] { obj_destroy(o); });
            if (!r.empty()) sub_fail(id, "destroying the object: " + r);
        }
    }
}
static RegB rb("fenv", b_fenv);
static RegP rp("C19", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 6007 + 19); struct Q { std::string s; double cost; }; std::vector<Q> q;
    static const char* cms[] = {"near", "down", "up", "zero", "ftz", "trap"}; static const char* sigs[] = {"uni", "uni", "uni", "delta", "const", "alt", "zero", "sparse", "int", "reonly", "half", "big", "small"};
    for (char k : std::string("crdb")) {
        std::string all; for (auto& x : ops_of(k)) all += (all.empty() ? "" : ",") + x;
        auto add = [&](size_t n) {
            if ((k == 'r' || k == 'd') && (n & 1)) n++; if (n < 1) return; if (k != 'b' && (double)n * max_prime(n) > 4e7) return;
            std::string ops = all, ms = "near,down,up,zero,ftz,trap"; if (n > 2000 && !th) { auto& v = ops_of(k); ops = v[g.below(v.size() / 2)] + "," + v[v.size() / 2 + g.below(v.size() / 2)]; if (n > 40000) ms = fmt("trap,%s", cms[1 + g.below(4)]); }
            Case c; c.word = "fenv"; c.set("kind", std::string(1, k)).set("n", (long)n).set("be", "sse2,avx,avx2").set("op", ops).set("m", ms).set("cm", cms[g.below(6)]).set("sig", sigs[g.below(13)]).setu("seed", g.below(1000000)); q.push_back(Q{c.str(), (double)n * (k == 'b' ? 8 : 1) * (ops.size() + 1) * ms.size()}); };
        for (size_t n = 1; n <= (th ? 2000u : 420u); n++) add(n);
        for (int r = 0; r < (th ? 6 : 2); r++) for (int l = 0; l <= (k == 'b' ? (th ? 19 : 17) : th ? 22 : 19); l++) add((size_t)1 << l);
        for (int i = 0; i < (th ? 1500 : 200); i++) add(420 + g.below(12000));
        for (int i = 0; i < (th ? 200 : 30); i++) { size_t n = 1; while (n < 20000 + g.below(100000)) n *= g.pick({2, 2, 3, 5, 7}); add(n); }
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
