// C09 (part 2) and C10 (part 2): data races, found by recording the accesses of code built with -fsanitize=thread.
#include "xf.h"
#include "mtsan.h"
#include "shim.h"
#include <pthread.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <algorithm>
static bool fiber_of_team = false;
static void* main_lo, *main_hi; static int main_tid = 0;
static void stack_of_self(void*& lo, void*& hi) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); size_t n; pthread_attr_getstack(&a, &lo, &n); hi = (char*)lo + n; pthread_attr_destroy(&a); }
static thread_local void* t_lo; static thread_local void* t_hi; static thread_local int t_app;
static void on_omp(int ev, int tid, void* lo, void* hi)
{
    if (t_app) { mt_thread(t_app, lo ? lo : t_lo, hi ? hi : t_hi); return; }   // C10: teams of one only
    if (ev == 0) mt_thread(tid, lo, hi);
    else if (ev == 1) { mt_sync(); mt_thread(0, nullptr, nullptr); }
    else mt_sync();
}
static void pT(const std::string& T, int& t, uint64_t& s) { auto p = split(T, ':'); t = p.empty() ? 1 : atoi(p[0].c_str()); s = p.size() > 1 ? strtoull(p[1].c_str(), 0, 10) : 0; }
// kind n be op T   S: setup threads
static void b_race(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); auto ops = c.list("op"); int st; uint64_t ss; pT(c.get("S", "4:0"), st, ss);
    vomp_hook = on_omp; va_mode(AM_POISON);
    size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0;
    UBuf x(na, 0), y(nb, 0);
    for (auto& be : c.list("be")) {
        Case s = c; s.set("be", be).set("op", "setup"); std::string id = s.str(); sub_begin(id);
        mt_thread(0, nullptr, nullptr); vomp_set(st, ss);
        uint64_t reg = vomp_stats().regions; long sh = 0;
        mt_start(); Obj o; obj_create(o, kind, be, n); mt_stop();
        if (mt_report()) sub_fail(id, std::string("while setting up: ") + mt_report());
        if (vomp_stats().regions > reg) { tally("parallel setups"); sub_done(id, true); }
        for (auto& op : ops) for (auto& T : c.list("T")) {
            if (op == "setup") continue;
            int t; uint64_t sc; pT(T, t, sc); s.set("op", op).set("T", T); id = s.str(); sub_begin(id);
            vomp_set(t, sc); x.fill_garbage(3); y.fill_garbage(4); for (size_t i = 0; i < na; i++) x.p[i] = (double)((i * 2654435761u) % 1000) - 500;
            reg = vomp_stats().regions;
            mt_start(); obj_run(o, op, x.p, y.p); mt_stop();
            MtStats m = mt_stats(); sh += m.shared_cells; bool par = vomp_stats().regions > reg;
            if (mt_report()) sub_fail(id, mt_report());
            tally(par ? "parallel transforms" : "serial transforms"); tally("accesses recorded", (long)(m.reads + m.writes)); tally("cells shared by several threads in one phase", (long)m.shared_cells); tally(fmt("kind %c", kind));
            sub_done(id, par && m.reads + m.writes > 0);
            if (sub_enough()) { obj_destroy(o); return; }
        }
        obj_destroy(o);
    }
    vomp_hook = nullptr;
}
static RegP rp("C09race", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 9127 + 5);
    struct Q { std::string s; double cost; }; std::vector<Q> q;
    auto add = [&](char k, long n, int nt) {
        if ((k == 'r' || k == 'd') && (n & 1)) n++;
        std::string T; for (int i = 0; i < nt; i++) T += fmt("%s%d:%d", i ? "," : "", (int)g.pick({2, 3, 4, 5, 7, 8, 16, 48}), (int)g.below(100));
        std::string o; for (auto& x : ops_of(k)) if (th || g.chance(n > 100000 ? .3 : .6)) o += (o.empty() ? "" : ",") + x;
        if (o.empty()) o = g.chance(.5) ? "fwd" : "inv";
        Case c; c.word = "race"; c.set("kind", std::string(1, k)).set("n", n).set("be", "avx2").set("op", o).set("T", T).set("S", fmt("%d:0", (int)g.pick({2, 3, 4, 8})));
        q.push_back(Q{c.str(), (double)n * (k == 'b' ? 6 : 1) * nt * (max_prime(n) > 5 ? max_prime(n) : 3)}); };
    for (char k : std::string("crdb")) {
        for (int l = 11; l <= (th ? 20 : k == 'b' ? 16 : 19); l++) add(k, 1L << l, th ? 3 : l < 17 ? 2 : 1);
        static const long sp[] = {36864, 40960, 49152, 50000, 15 * 4096, 7 * 8192, 46656, 59049, 78125, 98304, 32768 + 16, 33 * 1024, 35 * 1024, 44100};
        for (long n : sp) for (int i = 0; i < (th ? 4 : 1); i++) add(k, n, th ? 2 : 1);
        for (int i = 0; i < (th ? 60 : 6); i++) { long n = 32768 + (long)g.below(40000); n = n / 60 * 60; if (max_prime(n) > 100) n = 48000; add(k, n, 1); }
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
// ---------------------------------------------------------------- C10: application threads, all in one phase
// The threads are real (so thread-local storage is theirs) and live until the end, but run one after another.
// progs: threads separated by '/', steps by '.':  c<slot>:<kind>:<n>  s<slot>:<n>  x<slot>:<op>  d<slot>  R:<op> shared real  F:<op> shared FFT0  D:<op> shared DCT0
struct Shared { Obj r; std::unique_ptr<shim::Fft0> f; std::unique_ptr<shim::Dct0> d; long n; };
// pre: objects made by another thread beforehand, taken by the first c step of their slot, given back in the end
static std::string run_prog(const std::string& prog, const std::string& be, Shared& sh, uint64_t seed, long& checked, Obj* pre = nullptr)
{
    bool own[3] = {false, false, false};
    Obj o[3];
    for (auto& st : split(prog, '.')) {
        auto a = split(st, ':'); if (a.empty()) continue; char w = a[0][0]; int i = a[0].size() > 1 ? (a[0][1] - '0') % 3 : 0;
        if (w == 'c' && a.size() > 2) { if (pre && pre[i].live() && !own[i]) o[i] = std::move(pre[i]); else obj_create(o[i], a[1][0], be, atol(a[2].c_str())); own[i] = true; }
        else if (w == 's' && a.size() > 1) { if (o[i].live()) obj_setup(o[i], atol(a[1].c_str())); }
        else if (w == 'd') obj_destroy(o[i]);
        else if (a.size() > 1) {
            Obj* p = w == 'x' ? &o[i] : nullptr; char kind = w == 'x' ? o[i].kind : w == 'R' ? 'r' : w == 'F' ? 'c' : 'd'; long n = w == 'x' ? o[i].n : sh.n; std::string op = a[1];
            if (w == 'x' && (!o[i].live() || n <= 0)) continue; if (w == 'F' && !sh.f) continue; if (w == 'D' && !sh.d) continue; if (w == 'R' && !sh.r.live()) continue;
            if (kind == 'd' && op.back() == 'u') op.pop_back();
            std::vector<double> x(2 * n + 2), y(2 * n + 2), z(2 * n + 2);
            for (long k = 0; k < 2 * n; k++) x[k] = (double)(((k + 1) * 2654435761u + seed) % 1000) - 500;
            if (w == 'x') obj_run(*p, op, x.data(), y.data()); else if (w == 'R') obj_run(sh.r, op, x.data(), y.data());
            else if (w == 'F') { LibScope ls; sh.f->run(op, x.data(), y.data()); } else { LibScope ls; sh.d->run(op, x.data(), y.data(), z.data()); }
            checked++;
        }
    }
    if (pre) for (int i = 0; i < 3; i++) { if (o[i].live()) pre[i] = std::move(o[i]); }
    for (auto& q : o) obj_destroy(q);
    return "";
}
static void b_thrace(const Case& c)
{
    std::string id = c.str(); sub_begin(id); std::string be = c.get("be", "avx2"); auto progs = split(c.get("progs"), '/'); long n = c.num("n", 64);
    va_mode(AM_END); vomp_set(1, 0); vomp_hook = on_omp; t_app = 0; mt_thread(-1, nullptr, nullptr);
    { for (char k : std::string("crdb")) { Obj w; obj_create(w, k, be, 8); obj_create(w, k, "auto", 8); } }      // one-time initialisation
    Shared sh; sh.n = n; obj_create(sh.r, 'r', be, n);
    const shim::Backend* B = shim::backend(be); if (B) { LibScope ls; sh.f.reset(B->fft0((int)n)); sh.d.reset(B->dct0((int)n)); }
    std::mutex m; std::condition_variable cv; int turn = 0, done = 0, N = (int)progs.size(); bool fin = false; long checked = 0;
    struct Pre { Obj o[3]; }; std::vector<Pre> pre(c.num("pre") ? N : 0);
    for (size_t i = 0; i < pre.size(); i++) for (auto& st : split(progs[i], '.')) { auto a = split(st, ':'); if (a.size() > 2 && a[0][0] == 'c' && a[0].size() > 1) { Obj& o = pre[i].o[(a[0][1] - '0') % 3]; if (!o.live()) obj_create(o, a[1][0], be, atol(a[2].c_str())); } }
    if (pre.size()) tally("objects of several threads made by one");
    mt_start();
    std::vector<std::thread> th;
    for (int i = 0; i < N; i++) th.emplace_back([&, i] {
        { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == i; }); }
        void* lo, *hi; stack_of_self(lo, hi); t_lo = lo; t_hi = hi; t_app = i + 1; va_mode(AM_END); vomp_set(1, 0);
        mt_thread(i + 1, lo, hi);
        run_prog(progs[i], be, sh, 7 + i, checked, pre.empty() ? nullptr : pre[i].o);
        mt_thread(-1, nullptr, nullptr);
        std::unique_lock<std::mutex> l(m); turn++; done++; cv.notify_all(); cv.wait(l, [&] { return fin; });
    });
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return done == N; }); }
    mt_stop();
    if (mt_report()) sub_fail(id, std::string("between application threads: ") + mt_report());
    MtStats s = mt_stats(); tally("accesses recorded", (long)(s.reads + s.writes)); tally("cells read by several threads", (long)s.shared_cells); tally("thread programs", N); tally("transforms", checked);
    { std::unique_lock<std::mutex> l(m); fin = true; cv.notify_all(); }
    for (auto& t : th) t.join();
    for (auto& p : pre) for (auto& o : p.o) obj_destroy(o);
    { LibScope ls; sh.f.reset(); sh.d.reset(); } obj_destroy(sh.r);
    if (va_corruption()) sub_fail(id, va_corruption());
    va_reset(); va_mode(AM_PASS); vomp_hook = nullptr;
    sub_done(id, N >= 2 && checked >= 2 && s.reads + s.writes > 0);
}
static RegB rb("race", b_race), rb2("thrace", b_thrace);
static long small_n(Rng& g, char k, int big) { long n = g.chance(.5) ? 1L << g.below(big ? 18 : 12) : 1 + (long)g.below(big ? 2000 : 300); if ((k == 'r' || k == 'd') && (n & 1)) n++; return n; }
static RegP rp2("C10race", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 3571 + 5); static const char* ops[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"};
    for (int r = 0; r < (th ? 40000 : 6000); r++) {
        int N = (int)g.range(2, 4), big = g.chance(.04); std::string ps; char common = g.chance(.5) ? "crdb"[g.below(4)] : 0; long cn = small_n(g, common ? common : 'c', big);
        for (int i = 0; i < N; i++) {
            std::string p; int L = (int)g.range(2, 8); char kd[3] = {0, 0, 0};
            for (int q = 0; q < L; q++) {
                if (g.chance(.35)) { p += (p.empty() ? "" : ".") + fmt("%c:%s", "RRFD"[g.below(4)], ops[g.below(8)]); continue; }
                int s = (int)g.below(2);
                if (!kd[s]) { kd[s] = common ? common : "crdb"[g.below(4)]; p += (p.empty() ? "" : ".") + fmt("c%d:%c:%ld", s, kd[s], g.chance(.5) && common ? cn : small_n(g, kd[s], big)); }
                else { int w = (int)g.below(10); if (w < 2) p += fmt(".s%d:%ld", s, small_n(g, kd[s], big)); else if (w < 3) { p += fmt(".d%d", s); kd[s] = 0; } else p += fmt(".x%d:%s", s, ops[g.below(8)]); }
            }
            ps += (i ? "/" : "") + p;
        }
        long n = small_n(g, 'r', big); Case c; c.word = "thrace"; c.set("be", "avx2").set("n", n).set("progs", ps).set("pre", (long)g.chance(.4)); out.push_back(c.str());
    }
});
