// C09: results under every team size and thread order.
#include "xf.h"
#include <algorithm>
static void pT(const std::string& T, int& t, uint64_t& s) { auto p = split(T, ':'); t = p.empty() ? 1 : atoi(p[0].c_str()); s = p.size() > 1 ? strtoull(p[1].c_str(), 0, 10) : 0; }
// kind n be op T=use list  S=setup "threads:sched"  sig seed
static void b_omp(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); uint64_t seed = c.u64("seed", 1); std::string sig = c.get("sig", "uni");
    auto ops = c.list("op"), Ts = c.list("T"); int st; uint64_t ss; pT(c.get("S", "1:0"), st, ss); size_t off = c.num("off") * 8;
    va_mode(AM_POISON);
    size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0;
    UBuf x(na, off), y(nb, off);
    for (auto& be : c.list("be")) for (int dir = 0; dir < 2; dir++) {
        std::vector<std::string> d; for (auto& o : ops) if ((int)op_inverse(o) == dir) d.push_back(o);
        if (d.empty()) continue;
        const XRef& R = xref(kind, dir, n, sig, seed); size_t nout = out_len(kind, dir, n); double tol = tol_loose(kind, n);
        Case s = c; s.set("be", be).set("op", d[0]); sub_begin(s.str());
        uint64_t reg0 = vomp_stats().regions, bar0 = vomp_stats().barriers;
        vomp_set(st, ss); Obj o; if (c.num("late")) { obj_create(o, kind, be, 0); obj_setup(o, n); } else obj_create(o, kind, be, n);
        bool par_setup = vomp_stats().regions > reg0;
        vomp_set(1, 0); Obj o1; obj_create(o1, kind, be, n);
        for (auto& op : d) {
            s.set("op", op); s.set("T", c.get("T")); sub_begin(s.str());
            auto run = [&](Obj& ob, int t, uint64_t sc) { vomp_set(t, sc); x.fill_garbage(seed); x.load(R.in); y.fill_garbage(seed + t); obj_run(ob, op, x.p, y.p); return (const double*)(kind == 'r' ? y.p : x.p); };
            const double* r = run(o1, 1, 0); std::vector<double> base(r, r + nout);
            std::map<int, std::vector<double>> seen;
            for (auto& T : Ts) {
                int t; uint64_t sc; pT(T, t, sc); s.set("T", T); std::string id = s.str(); sub_begin(id);
                uint64_t reg = vomp_stats().regions, bar = vomp_stats().barriers;
                r = run(o, t, sc);
                bool par = vomp_stats().regions > reg;
                double e = rel_err(r, R.ref, op_scale(op, n), R.innorm, R.zero);
                double eb = 0; { long double dd = 0, nn = 0; for (size_t i = 0; i < nout; i++) { long double q = (long double)r[i] - base[i]; dd += q * q; nn += (long double)base[i] * base[i]; } eb = nn > 0 ? (double)sqrtl(dd / nn) : dd > 0 ? INFINITY : 0; }
                note_max("difference from one thread / tol", eb / tol);
                if (!(e <= tol)) sub_fail(id, fmt("relative error %.3g with %d threads (set up with %d), %.3g from the one-thread result", e, t, st, eb));
                else if (!(eb <= 2 * tol)) sub_fail(id, fmt("with %d threads the result differs from the one-thread result by %.3g", t, eb));
                else if (!x.intact() || !y.intact()) sub_fail(id, "wrote outside the caller's array");
                else {
                    auto& q = seen[t];
                    if (q.empty()) q.assign(r, r + nout);
                    else if (memcmp(q.data(), r, nout * 8)) {
                        size_t w = 0; while (!memcmp(&q[w], r + w, 8)) w++;
                        Case s2 = s; std::string first; for (auto& T2 : Ts) { int t2; uint64_t sc2; pT(T2, t2, sc2); if (t2 == t) { first = T2; break; } }
                        sub_fail(s2.set("T", first + "," + T).str(), fmt("with %d threads, repeating the transform gives different bits (double %zu: %.17g, then %.17g)", t, w, q[w], r[w])); }
                    else tally("bitwise repeats");
                }
                if (va_corruption()) { sub_fail(id, va_corruption()); va_clear_corruption(); }
                tally(par ? "parallel transform" : "serial transform"); if (par_setup) tally("parallel setup"); if (t > 1 && st == 1) tally("set up with one thread"); if (t != st) tally("setup and use thread counts differ");
                if (par) { tally(fmt("T=%d", t)); tally("barriers crossed", (long)(vomp_stats().barriers - bar)); tally(sc == 0 ? "order ascending" : sc == 1 ? "order descending" : "order random"); }
                tally(fmt("kind %c", kind)); tally("be " + be);
                sub_done(id, par && !R.zero);
                if (sub_enough()) return;
            }
        }
        (void)bar0;
    }
}
static RegB rb("omp", b_omp);
static RegP rp("C09", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 52711 + 17); static const char* bes[] = {"sse2", "avx", "avx2"};
    struct Q { std::string s; double cost; }; std::vector<Q> q;
    auto tl = [&](int k) { // every team size comes with at least two orders
        std::string r; for (int i = 0; i < k; i++) { int t = (int)g.pick({2, 2, 3, 4, 5, 6, 7, 8, 8, 9, 11, 12, 13, 15, 16, 24, 32, 33, 64, 100, 129, 256}); r += fmt("%s%d:0,%d:1,%d:%d", i ? "," : "", t, t, t, 2 + (int)g.below(100000)); } return r; };
    auto add = [&](char k, long n, const std::string& be, int nt, double w) {
        if ((k == 'r' || k == 'd') && (n & 1)) n++;
        if (k != 'b' && (double)n * max_prime(n) > (th ? 1e9 : 1e8)) return;
        auto& all = ops_of(k); std::string o; std::vector<std::string> f, v; for (auto& x : all) (op_inverse(x) ? v : f).push_back(x);
        if (th || n < 40000) o = ""; 
        int take = th ? 8 : n > 100000 ? 1 : 2;
        for (int i = 0; i < take && !f.empty(); i++) { size_t j = g.below(f.size()); o += (o.empty() ? "" : ",") + f[j]; f.erase(f.begin() + j); }
        for (int i = 0; i < take && !v.empty(); i++) { size_t j = g.below(v.size()); o += (o.empty() ? "" : ",") + v[j]; v.erase(v.begin() + j); }
        int st = (int)g.pick({1, 1, 2, 3, 4, 7, 8, 16, 70, 200});
        Case c; c.word = "omp"; c.set("kind", std::string(1, k)).set("n", n).set("be", be).set("op", o).set("T", tl(nt)).set("S", fmt("%d:%d", st, (int)g.below(1000))).set("sig", "uni").setu("seed", g.below(100000)).set("off", (long)g.below(2)).set("late", (long)g.below(2));
        q.push_back(Q{c.str(), w * n * (k == 'b' ? 6 : 1) * (1 + nt * 3) * (max_prime(n) > 5 ? 1 + max_prime(n) / 8. : 1)}); };
    for (char k : std::string("crdb")) for (auto be : bes) {
        for (int l = 10; l <= (th ? 21 : 19); l++) for (int i = 0; i < (th ? 4 : l < 17 ? 2 : 1); i++) add(k, 1L << l, be, th ? 4 : l < 17 ? 3 : 1, 1);
        // mixed-radix lengths around and above the parallel threshold
        static const long sp[] = {32768 + 4, 36864, 40960, 49152, 50000, 3 * 16384, 9 * 4096, 15 * 4096, 25 * 2048, 27 * 2048, 45 * 1024, 75 * 512, 125 * 512, 7 * 8192, 11 * 4096, 49 * 1024, 59049, 78125, 46656, 44100, 48000, 96000, 6561 * 8, 3 * 32768, 5 * 32768, 13 * 4096, 2401 * 16, 31 * 1200, 20480, 24576, 98304, 81920, 65536 + 8, 72000, 1331 * 32};
        for (long n : sp) { if (!th && g.chance(.45)) continue; add(k, n, be, th ? 4 : 2, 1); }
        for (int i = 0; i < (th ? 120 : 14); i++) { long n = 16384 + (long)g.below(60000); long m = g.pick({2, 4, 8, 6, 10, 12, 30, 15, 9, 25, 16}); n = n / m * m; if (max_prime(n) > 200) n = (n / 1000 + 1) * 960; add(k, n, be, th ? 3 : 1, 1); }
        for (int i = 0; i < (th ? 60 : 10); i++) add(k, 64 + (long)g.below(16000), be, 2, 1);
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
