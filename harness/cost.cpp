// C18: the work of a transform grows as the FFT promises, and an object's memory with its length. Work is counted, not timed:
// every memory access of the instrumented library code outside the thread's stack.
#include "xf.h"
#include "mtsan.h"
#include <pthread.h>
#include <algorithm>
static void* s_lo, *s_hi;
static void self_stack() { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); size_t n; pthread_attr_getstack(&a, &s_lo, &n); s_hi = (char*)s_lo + n; pthread_attr_destroy(&a); }
// size of the task in units of element accesses: n log2 n for the smooth part, n p for every larger prime factor
static double model(char kind, size_t n)
{
    size_t m = kind == 'r' || kind == 'd' ? (n + 1) / 2 : n; double extra = kind == 'd' ? 6.0 * n : kind == 'r' ? 4.0 * n : 0;
    if (kind == 'b') { size_t L = 1; while (L < 2 * n) L *= 2; return 2.0 * L * log2(L + 2.0) + 8.0 * L + 200; }
    double w = 0; size_t r = m; for (size_t p = 2; p * p <= r; p++) while (r % p == 0) { w += p <= 5 ? log2((double)p) : (double)p; r /= p; } if (r > 1) w += r <= 5 ? log2((double)r) : (double)r;
    return m * (w + 2) + extra + 200;
}
static void b_cost(const Case& c)
{
    char kind = c.get("kind")[0]; size_t n = c.num("n"); std::string be = c.get("be", "avx2"); auto ops = c.list("op");
    va_mode(AM_POISON); vomp_set(1, 0); self_stack(); mt_count_only(true);
    size_t na = std::max(in_len(kind, false, n), in_len(kind, true, n)), nb = kind == 'r' ? 2 * n : 0; UBuf x(na, 0), y(nb, 0);
    Case s = c; s.set("op", "setup"); std::string id = s.str(); sub_begin(id);
    { Obj w; obj_create(w, kind, be, 8); }
    AllocStats a0 = va_stats(); mt_thread(0, s_lo, s_hi); mt_start();
    Obj o; obj_create(o, kind, be, n);
    mt_stop(); MtStats m0 = mt_stats(); AllocStats a1 = va_stats();
    size_t L = n; if (kind == 'b') { L = 1; while (L < 2 * n) L *= 2; }
    double su = (double)(m0.reads + m0.writes) / (L + 200.0), by = (a1.live_bytes - a0.live_bytes - 4096.0) / (16.0 * L);
    note_max(fmt("%c setup accesses per element", kind), su); note_max(fmt("%c bytes held per input byte", kind), by);
    if (su > 25) sub_fail(id, fmt("setting up length %zu made %.3g memory accesses, %.3g per element (allowed 25)", n, (double)(m0.reads + m0.writes), su));
    if (by > 14) sub_fail(id, fmt("an object of length %zu holds %ld bytes, %.3g times its input (allowed 14)", n, a1.live_bytes - a0.live_bytes, by));
    sub_done(id, n >= 2 && m0.reads + m0.writes > 0);
    for (auto& op : ops) {
        s.set("op", op); id = s.str(); sub_begin(id);
        for (size_t i = 0; i < na; i++) x.p[i] = (double)((i * 2654435761u) % 1000) - 500;
        AllocStats b0 = va_stats();
        mt_thread(0, s_lo, s_hi); mt_start(); obj_run(o, op, x.p, y.p); mt_stop();
        MtStats m = mt_stats(); AllocStats b1 = va_stats(); double k = (double)(m.reads + m.writes) / model(kind, n);
        note_max(fmt("%c accesses per model unit", kind), k); if (is_pow2(n)) note_max(fmt("%c pow2 accesses per model unit", kind), k); else if (kind != 'b' && max_prime(n) <= 5) note_max(fmt("%c smooth accesses per model unit", kind), k);
        double lim = is_pow2(n) || max_prime(n) <= 5 || kind == 'b' ? 4.5 : 7;
        if (k > lim) sub_fail(id, fmt("%s of length %zu made %.4g memory accesses, %.3g times the model of its size (allowed %g)", op.c_str(), n, (double)(m.reads + m.writes), k, lim));
        if (b1.calls != b0.calls) sub_fail(id, fmt("%s of length %zu allocated memory (%ld calls)", op.c_str(), n, b1.calls - b0.calls));
        sub_done(id, n >= 2 && m.reads + m.writes > 0); tally(fmt("kind %c", kind));
        tally(kind == 'b' ? "len any" : is_pow2(n) ? "len pow2" : max_prime(n) <= 5 ? "len 2,3,5-smooth" : "len with larger primes");
        if (sub_enough()) break;
    }
    mt_count_only(false); obj_destroy(o);
}
static RegB rb("cost", b_cost);
static RegP rp("C18", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 5701 + 3); struct Q { std::string s; double cost; }; std::vector<Q> q;
    for (char k : std::string("crdb")) {
        std::string ops; for (auto& x : ops_of(k)) ops += (ops.empty() ? "" : ",") + x;
        auto add = [&](size_t n) { if ((k == 'r' || k == 'd') && (n & 1)) n++; if (n < 1) return; if (k != 'b' && (double)n * max_prime(n) > (th ? 2e8 : 4e7)) return; Case c; std::string o2 = ops; if (!th && n > 8192) { auto& v = ops_of(k); size_t a = g.below(v.size() / 2), b = v.size() / 2 + g.below(v.size() / 2); o2 = n > 100000 ? v[n & 1 ? a : b] : v[a] + "," + v[b]; if (is_pow2(n)) o2 = v[a] + "," + v[b]; } c.word = "cost"; c.set("kind", std::string(1, k)).set("n", (long)n).set("be", "avx2").set("op", o2); q.push_back(Q{c.str(), model(k, n)}); };
        for (size_t n = 1; n <= (th ? 3000u : 500u); n++) add(n);
        for (int l = 10; l <= (k == 'b' ? 19 : k == 'c' ? (th ? 24 : 22) : (th ? 24 : 22)); l++) add((size_t)1 << l);
        for (int i = 0; i < (th ? 2000 : 300); i++) add(700 + g.below(30000));
        for (int i = 0; i < (th ? 600 : 50); i++) { size_t n = 1; while (n < 3000 + g.below(900000)) n *= g.pick({2, 2, 3, 5}); add(n); }
        // products of two or three primes of similar size, with and without small factors, on both sides of the parallel threshold
        { std::vector<size_t> pr; for (size_t p = 7; p < 330; p += 2) if (max_prime(p) == p) pr.push_back(p);
          auto P = [&](size_t lim) { size_t i = 0; while (i + 1 < pr.size() && pr[i + 1] <= lim) i++; return pr[g.below(i + 1)]; };
          for (int i = 0; i < (th ? 150 : 16); i++) { size_t p = P(320), m = g.pick({1, 1, 2, 4, 6}); add(p * p * m); p = P(320); add(p * P(320) * g.pick({1, 2, 3})); p = P(47); add(p * p * p); add(P(61) * P(61) * P(29)); }
          for (size_t p : {181, 191, 227, 257, 263}) { add(p * p); add(2 * p * p); } add(37 * 37 * 37); add(2 * 29 * 29 * 29); add(4 * 97 * 97); add(11 * 11 * 11 * 11 * 11); add(13 * 13 * 13 * 13 * 2); }
        if (k == 'b') for (int i = 0; i < (th ? 100 : 8); i++) add(30000 + g.below(400000));
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
});
