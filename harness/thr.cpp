// C10 (part 1): real application threads on their own objects and on shared scratch-free ones; every result is checked.
#include "xf.h"
#include "shim.h"
#include <thread>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <atomic>
#include <algorithm>
#include <sched.h>
#include <unistd.h>
// progs as in race.cpp; every program is repeated `reps` times by its thread
struct Want { XRef r; };
typedef std::map<std::string, XRef> Refs;
static std::string rkey(char k, bool inv, long n) { return fmt("%c%d %ld", k == 'b' ? 'c' : k, (int)inv, n); }
struct Sh { Obj r; std::unique_ptr<shim::Fft0> f; std::unique_ptr<shim::Dct0> d; long n; };
// walks a program; ref=true only collects the references it will need
static std::string walk(const std::string& prog, const std::string& be, Sh& sh, Refs& refs, bool collect, uint64_t jit, long& checked, Obj* pre = nullptr)
{   // pre: objects made by another thread beforehand, taken by the first c step of their slot, given back in the end
    Obj o[3]; char k_[3] = {0, 0, 0}; long n_[3] = {0, 0, 0}; Rng g(jit);
    std::string err;
    for (auto& st : split(prog, '.')) {
        auto a = split(st, ':'); if (a.empty()) continue; char w = a[0][0]; int i = a[0].size() > 1 ? (a[0][1] - '0') % 3 : 0;
        if (!collect && jit) { int z = (int)g.below(8); if (z == 0) sched_yield(); else if (z == 1) usleep((unsigned)g.below(60)); }
        if (w == 'c' && a.size() > 2) { k_[i] = a[1][0]; n_[i] = atol(a[2].c_str()); if (!collect) { if (pre && pre[i].live()) o[i] = std::move(pre[i]); else obj_create(o[i], k_[i], a.size() > 3 ? a[3] : be, n_[i]); } }
        else if (w == 's' && a.size() > 1) { if (k_[i]) { n_[i] = atol(a[1].c_str()); if (!collect) obj_setup(o[i], n_[i]); } }
        else if (w == 'd') { k_[i] = 0; if (!collect) obj_destroy(o[i]); }
        else if (a.size() > 1) {
            char kind = w == 'x' ? k_[i] : w == 'R' ? 'r' : w == 'F' ? 'c' : 'd'; long n = w == 'x' ? n_[i] : sh.n; std::string op = a[1];
            if (w == 'x' && (!k_[i] || n <= 0)) continue;
            if (!collect && ((w == 'F' && !sh.f) || (w == 'D' && !sh.d))) continue;
            if (kind == 'd' && op.back() == 'u') op.pop_back();
            bool inv = op_inverse(op); std::string key = rkey(kind, inv, n);
            if (collect) { if (!refs.count(key)) refs[key] = xref(kind, inv, n, "uni", 5); continue; }
            const XRef& R = refs.find(key)->second;
            std::vector<double> x(2 * n + 2), y(2 * n + 2, NAN), z(2 * n + 2, NAN); std::copy(R.in.begin(), R.in.end(), x.begin());
            if (w == 'x') obj_run(o[i], op, x.data(), y.data()); else if (w == 'R') obj_run(sh.r, op, x.data(), y.data());
            else if (w == 'F') { LibScope ls; sh.f->run(op, x.data(), y.data()); } else { LibScope ls; sh.d->run(op, x.data(), y.data(), z.data()); }
            double e = rel_err(kind == 'r' ? y.data() : x.data(), R.ref, op_scale(op, n), R.innorm, R.zero); checked++;
            if (!(e <= tol_loose(kind, n)) && err.empty()) err = fmt("step %s of length %ld: relative error %.3g", st.c_str(), n, e);
            if (!err.empty()) break;
        }
    }
    if (pre) for (int i = 0; i < 3; i++) { if (o[i].live()) pre[i] = std::move(o[i]); }
    if (!collect) for (auto& q : o) obj_destroy(q);
    return err;
}
static void b_thr(const Case& c)
{
    std::string id = c.str(); sub_begin(id); std::string be = c.get("be", "avx2"); auto progs = split(c.get("progs"), '/'); int reps = (int)c.num("reps", 1), T = (int)c.num("T", 1); long n = c.num("n", 64); uint64_t seed = c.u64("seed", 1);
    Refs refs; long dummy = 0; Sh sh; sh.n = n;
    for (auto& p : progs) walk(p, be, sh, refs, true, 0, dummy);
    int mode = (int)c.num("mode", AM_POISON); va_mode(mode); vomp_set(1, 0);
    if (c.num("cold") == 0) { Obj w; obj_create(w, 'c', "auto", 4); }
    obj_create(sh.r, 'r', be, n);
    const shim::Backend* B = shim::backend(be); if (B) { LibScope ls; sh.f.reset(B->fft0((int)n)); sh.d.reset(B->dct0((int)n)); }
    int N = (int)progs.size(); std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::string> err(N); std::vector<long> checked(N, 0);
    struct Pre { Obj o[3]; }; std::vector<Pre> pre(c.num("pre") ? N : 0);
    for (size_t i = 0; i < pre.size(); i++) for (auto& st : split(progs[i], '.')) { auto a = split(st, ':'); if (a.size() > 2 && a[0][0] == 'c' && a[0].size() > 1) { Obj& o = pre[i].o[(a[0][1] - '0') % 3]; if (!o.live()) obj_create(o, a[1][0], a.size() > 3 ? a[3] : be, atol(a[2].c_str())); } }
    if (pre.size()) tally("objects of several threads made by one");
    auto body = [&](int i) {
        va_mode(mode); vomp_set(T, 0); ready++; while (!go) sched_yield();
        for (int r = 0; r < reps && err[i].empty(); r++) { try { err[i] = walk(progs[i], be, sh, refs, false, seed * 1000 + i * 31 + r, checked[i], r == 0 && pre.size() ? pre[i].o : nullptr); } catch (const std::exception& e) { err[i] = std::string("exception: ") + e.what(); } }
    };
    int via = (int)c.num("via");           // 0 std::thread, 1 inside the application's own OpenMP region, 2 the same with nesting enabled
    if (via) { go = true; vomp_team(N, via, [&](int i) { if (i < N) body(i); }); va_mode(mode); tally(via == 1 ? "inside an OpenMP region" : "inside an OpenMP region, nested teams"); }
    else {
        std::vector<std::thread> th;
        for (int i = 0; i < N; i++) th.emplace_back([&, i] { body(i); });
        while (ready < N) sched_yield();
        go = true; for (auto& t : th) t.join();
    }
    for (auto& p : pre) for (auto& o : p.o) obj_destroy(o);
    { LibScope ls; sh.f.reset(); sh.d.reset(); } obj_destroy(sh.r);
    long ch = 0; for (int i = 0; i < N; i++) { ch += checked[i]; if (!err[i].empty() && !sub_enough()) sub_fail(id, fmt("application thread %d of %d, %s", i, N, err[i].c_str())); }
    if (va_corruption() && !sub_enough()) sub_fail(id, va_corruption());
    tally("thread programs", N * reps); tally("transforms checked", ch); tally(fmt("application threads %d", N)); tally("be " + be); if (T > 1) tally("with OpenMP teams inside threads");
    va_mode(AM_PASS); sub_done(id, N >= 2 && ch >= 2);
}
static RegB rb("thr", b_thr);
// mig be= h=steps: <thread>:c<i>:<kind>:<n>[:<backend>], <thread>:s<i>:<n>, <thread>:x<i>:<op>, <thread>:d<i>, <thread>:q (the thread ends; another starts when it is named again)
// Objects are handed from thread to thread, one step at a time.
struct Hand {
    std::thread t; std::mutex m; std::condition_variable cv; std::function<void()> job; bool quit = false;
    Hand() { t = std::thread([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return quit || job; }); if (job) { job(); job = nullptr; cv.notify_all(); } else if (quit) return; } }); }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); cv.notify_all(); cv.wait(l, [&] { return !job; }); }
    ~Hand() { { std::unique_lock<std::mutex> l(m); quit = true; cv.notify_all(); } t.join(); }
};
static void b_mig(const Case& c)
{
    std::string id = c.str(); sub_begin(id); std::string be = c.get("be", "avx2"), err; int T = (int)c.num("T", 1), mode = (int)c.num("mode", AM_POISON);
    const int NO = 3, NT = 6; Obj o[NO]; char k_[NO] = {0}; long n_[NO] = {0}; int last[NO]; for (int& x : last) x = -1;
    std::unique_ptr<Hand> th[NT]; long checked = 0, moved = 0, ended = 0; int step = 0;
    for (auto& st : split(c.get("h"), '.')) {
        auto a = split(st, ':'); if (a.size() < 2 || !err.empty()) continue; step++;
        int t = (a[0][0] - '0') % NT; if (t < 0) continue; char w = a[1][0]; int i = a[1].size() > 1 ? (a[1][1] - '0') % NO : 0; if (i < 0) continue;
        if (w == 'q') { if (th[t]) ended++; th[t].reset(); continue; }
        if (w == 'x' && (!k_[i] || n_[i] <= 0)) continue;
        const XRef* R = nullptr; std::string op; std::vector<double> x, y;
        if (w == 'x' && a.size() > 2) { op = a[2]; if (k_[i] == 'd' && op.back() == 'u') op.pop_back(); R = &xref(k_[i], op_inverse(op), n_[i], "uni", 7); x.assign(2 * n_[i] + 2, 0); y.assign(2 * n_[i] + 2, NAN); std::copy(R->in.begin(), R->in.end(), x.begin()); }
        if (!th[t]) th[t].reset(new Hand);
        if (last[i] >= 0 && last[i] != t && k_[i]) moved++;
        last[i] = t;
        th[t]->run([&] {
            va_mode(mode); vomp_set(T, 0);
            try {
                if (w == 'c' && a.size() > 3) { k_[i] = a[2][0]; n_[i] = atol(a[3].c_str()); obj_create(o[i], k_[i], a.size() > 4 ? a[4] : be, n_[i]); }
                else if (w == 's' && a.size() > 2) { if (k_[i]) { n_[i] = atol(a[2].c_str()); obj_setup(o[i], n_[i]); } }
                else if (w == 'd') { k_[i] = 0; obj_destroy(o[i]); }
                else if (R) obj_run(o[i], op, x.data(), y.data());
            } catch (const std::exception& e) { err = fmt("step %d (%s): exception %s", step, st.c_str(), e.what()); }
            va_mode(AM_PASS); });
        if (R && err.empty()) { double e = rel_err(k_[i] == 'r' ? y.data() : x.data(), R->ref, op_scale(op, n_[i]), R->innorm, R->zero); checked++; if (!(e <= tol_loose(k_[i], n_[i]))) err = fmt("step %d (%s), %c object of length %ld: relative error %.3g", step, st.c_str(), k_[i], n_[i], e); }
    }
    for (auto& t : th) t.reset();
    va_mode(mode); for (auto& q : o) obj_destroy(q);
    va_mode(AM_PASS);
    if (!err.empty()) sub_fail(id, err); else if (va_corruption()) sub_fail(id, va_corruption());
    tally("hand-over histories"); tally("transforms checked", checked); tally("objects handed over", moved); tally("threads ended", ended); tally("be " + be);
    sub_done(id, checked >= 1 && moved >= 1);
}
static RegB rbm("mig", b_mig);
static long pick_n(Rng& g, char k, int big) { long n = g.chance(.5) ? 1L << g.below(big ? 17 : 12) : 1 + (long)g.below(big ? 4000 : 400); if (big && g.chance(.3)) n = g.pick({36864, 40960, 49152, 32768, 65536}); if ((k == 'r' || k == 'd') && (n & 1)) n++; return n; }
static RegP rp("C10", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 3571 + 77); static const char* ops[] = {"fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"}; static const char* bes[] = {"sse2", "avx", "avx2"};
    for (int r = 0; r < (th ? 40000 : 9000); r++) {
        int N = (int)g.pick({2, 2, 3, 4, 6, 8}), big = g.chance(.06); std::string ps; char common = g.chance(.5) ? "crdb"[g.below(4)] : 0; long cn = pick_n(g, common ? common : 'c', big); bool mixbe = g.chance(.3); std::string be = bes[g.below(3)];
        int style = (int)g.below(3); // 0 mixed, 1 only shared objects, 2 create/destroy churn
        for (int i = 0; i < N; i++) {
            std::string p; int L = (int)g.range(3, 10); char kd[3] = {0, 0, 0};
            for (int q = 0; q < L; q++) {
                if (style == 1 || g.chance(style == 0 ? .35 : .1)) { p += (p.empty() ? "" : ".") + fmt("%c:%s", "RRFD"[g.below(4)], ops[g.below(8)]); continue; }
                int s = (int)g.below(2);
                if (!kd[s]) { kd[s] = common ? common : "crdb"[g.below(4)]; p += (p.empty() ? "" : ".") + fmt("c%d:%c:%ld", s, kd[s], g.chance(.15) ? 0 : g.chance(.6) && common ? cn : pick_n(g, kd[s], big)); if (mixbe) p += std::string(":") + bes[g.below(3)]; }
                else { int w = (int)g.below(10); if (w < 2) p += fmt(".s%d:%ld", s, pick_n(g, kd[s], big)); else if (w < (style == 2 ? 6 : 3)) { p += fmt(".d%d", s); kd[s] = 0; } else p += fmt(".x%d:%s", s, ops[g.below(8)]); }
            }
            ps += (i ? "/" : "") + p;
        }
        Case c; c.word = "thr"; c.set("be", be).set("n", pick_n(g, 'r', big)).set("progs", ps).set("reps", (long)(big ? 1 : g.range(2, 8))).set("T", big ? (long)g.pick({1, 2, 3}) : 1L).set("mode", (long)(g.chance(.8) ? AM_POISON : AM_PASS)).setu("seed", g.below(100000)).set("cold", (long)(r < 16)).set("pre", (long)g.chance(.4)).set("via", g.chance(.75) ? 0L : big && g.chance(.5) ? 2L : 1L); out.push_back(c.str());
    }
    for (int r = 0; r < (th ? 12000 : 2500); r++) {
        int NT = (int)g.range(2, 6), big = g.chance(.1), L = (int)g.range(4, 16); std::string h; char kd[3] = {0, 0, 0}; bool same = g.chance(.5); char common = "crdb"[g.below(4)]; long cn = pick_n(g, common, big);
        for (int q = 0; q < L; q++) {
            int t = (int)g.below(NT), i = (int)g.below(3); std::string st;
            if (!kd[i]) { kd[i] = same ? common : "crdb"[g.below(4)]; st = fmt("c%d:%c:%ld", i, kd[i], g.chance(.1) ? 0 : same && g.chance(.6) ? cn : pick_n(g, kd[i], big)); if (g.chance(.2)) st += std::string(":") + bes[g.below(3)]; }
            else { int w = (int)g.below(12); if (w < 2) st = fmt("s%d:%ld", i, same && g.chance(.5) ? cn : pick_n(g, kd[i], big)); else if (w == 2) { st = fmt("d%d", i); kd[i] = 0; } else if (w < 5) st = "q"; else st = fmt("x%d:%s", i, ops[g.below(8)]); }
            h += (h.empty() ? "" : ".") + fmt("%d:", t) + st;
        }
        for (int i = 0; i < 3; i++) if (kd[i]) h += fmt(".%d:x%d:%s", (int)g.below(NT), i, ops[g.below(8)]);
        Case c; c.word = "mig"; c.set("be", bes[g.below(3)]).set("h", h).set("T", big ? (long)g.pick({1, 2, 4}) : 1L).set("mode", (long)(g.chance(.8) ? AM_POISON : AM_PASS)); out.push_back(c.str());
    }
});
