// Generators for the numerical properties C01..C06 and C15.
#include "xf.h"
#include <algorithm>
#include <map>
static const char* ALL = "sse2,avx,avx2";
static const char* BES[] = {"sse2", "avx", "avx2"};
static bool is_prime(size_t n) { return n > 1 && max_prime(n) == n; }
static size_t smooth(Rng& g, size_t lo, size_t hi)
{
    for (;;) {
        double lim = exp(log((double)lo) + g.unit() * (log((double)hi) - log((double)lo)));
        size_t n = 1; int style = (int)g.below(5);
        while (n < lim) { int p = style == 0 ? g.pick({2, 2, 3}) : style == 1 ? g.pick({2, 2, 2, 5}) : style == 2 ? g.pick({3, 5}) : style == 3 ? g.pick({2, 2, 3, 5}) : g.pick({2, 3, 5, 7, 11, 13}); if (n * p > hi) break; n *= p; }
        if (n >= lo && n <= hi) return n;
    }
}
static std::string tlist(Rng& g, int k, bool one = true)
{
    std::string r = one ? "1:0" : "";
    for (int i = 0; i < k; i++) { int t = (int)g.pick({2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 33, 48, 65, 130, 256}); uint64_t s = g.pick({0, 1, 2, 2, 2}); if (s == 2) s = 2 + g.below(1000000); r += fmt("%s%d:%llu", r.empty() ? "" : ",", t, (unsigned long long)s); }
    return r;
}
static std::string rsig(Rng& g) { auto& v = sig_names(); return v[g.below(v.size())]; }
struct Q { std::string s; double cost; };

// kind, comma list of ops; limits the documented domain (even lengths for r and d)
static void gen_xf(char kind, const std::string& ops, bool th, uint64_t seed, std::vector<std::string>& out, const char* tol = "l")
{
    Rng g(seed * 1000003 + kind * 31 + ops.size());
    std::vector<Q> q;
    bool even = kind == 'r' || kind == 'd';
    auto add = [&](size_t n, const std::string& sig, std::string T, std::string bes, double w = 1) {
        if (even && (n & 1)) n++;
        if (n < (even ? 2u : 1u)) n = even ? 2 : 1;
        if (kind != 'b') { // a large prime factor costs time proportional to n times the factor
            size_t h = even ? n / 2 : n; double work = (double)h * max_prime(h);
            if (work > (th ? 4e9 : 4e8)) return;
            if (work > (th ? 2e8 : 3e7) && max_prime(h) > 64) { if (bes == ALL) bes = BES[g.below(3)]; T = split(T, ',').back(); }
        }
        Case c; c.word = "xf";
        c.set("kind", std::string(1, kind)).set("n", (long)n).set("be", bes).set("op", ops).set("T", T).set("sig", sig).setu("seed", g.below(1000000000)).set("off", (long)g.below(2)).set("late", (long)(g.below(4) == 0)).set("tol", tol);
        size_t m = kind == 'b' ? 4 * n : n, mp = kind == 'b' ? 2 : max_prime(even ? n / 2 : n);
        q.push_back(Q{c.str(), w * m * (log2(m + 2.0) + mp) * split(T, ',').size()}); };
    size_t lim = th ? 4500 : 1300;
    for (size_t n = even ? 2 : 1; n <= lim; n += even ? 2 : 1) { add(n, "uni", "1:0", ALL); add(n, rsig(g), "1:0", ALL); if (th) add(n, rsig(g), tlist(g, 1, false), ALL); }
    // every signal class at every power of two
    for (int k = 0; k <= 14; k++) for (auto& s : sig_names()) add((size_t)1 << k, s, "1:0", ALL);
    // powers of two around and above the parallel thresholds
    for (int k = 12; k <= (th ? 20 : 18); k++) { add((size_t)1 << k, "uni", tlist(g, th ? 8 : 3), ALL); for (int i = 0; i < (th ? 4 : 1); i++) add((size_t)1 << k, rsig(g), tlist(g, th ? 4 : 2, false), ALL); }
    for (int k = th ? 21 : 19; k <= (kind == 'b' ? (th ? 22 : 21) : even ? 25 : 24); k++) for (auto be : BES) add((size_t)1 << k, k <= 20 ? "uni" : "closed", tlist(g, th ? 3 : 1, k <= 21), be);
    // mixed lengths
    for (int i = 0; i < (th ? 1500 : 250); i++) add(lim + g.below(16384 - lim), i % 2 ? "uni" : rsig(g), "1:0", ALL);
    for (int i = 0; i < (th ? 800 : 140); i++) add(smooth(g, lim, 32000), i % 2 ? "uni" : rsig(g), "1:0", ALL);
    for (int i = 0; i < (th ? 400 : 60); i++) add(smooth(g, 32768, 150000), i % 2 ? "uni" : rsig(g), tlist(g, 2, i % 3 == 0), ALL);
    for (int i = 0; i < (th ? 100 : 12); i++) add(smooth(g, 150000, 1000000), i % 2 ? "uni" : rsig(g), tlist(g, 1, i % 2 == 0), BES[i % 3]);
    for (int i = 0; i < (th ? 300 : 50); i++) add(2 * smooth(g, 16384, 60000), "uni", tlist(g, 2, false), ALL);
    // every length of the radices 2, 3 and 5 above the parallel threshold (thorough: also 7)
    if (kind != 'b') for (size_t a = 1; a <= 150000; a *= 2) for (size_t b = a; b <= 150000; b *= 3) for (size_t c = b; c <= 150000; c *= 5) for (size_t d = c; d <= 150000; d *= 7) {
        if (d > 32768 && !is_pow2(d) && (th || d == c)) add(even ? 2 * d : d, "uni", tlist(g, 1, d % 2 == 0), BES[g.below(3)]); }
    // one to three radices exactly around the parallel threshold
    for (long d = -6; d <= 6; d++) { add(32768 + d, "uni", tlist(g, 1), BES[(d + 6) % 3]); if (even) add(65536 + 2 * d, "uni", tlist(g, 1), BES[(d + 6) % 3]); }
    static const size_t special[] = {2*3*5*7*11*13, 1001, 2187, 6561, 19683, 3125, 15625, 59049, 78125, 3*32768, 5*32768, 7*32768, 9*16384, 15*4096, 25*8192, 36864, 40960, 49152, 46656, 100000, 131072+65536, 44100, 48000, 88200, 96000, 192000, 65536*3, 65536*5};
    for (size_t n : special) { add(n, "uni", n >= 32768 ? tlist(g, 2) : "1:0", ALL); if (th) add(n, rsig(g), tlist(g, 3, false), ALL); }
    int np = 0; for (size_t p = 1301 + 2 * g.below(200); np < (th ? 60 : 12) && p < 40000; p += 2 + 2 * g.below(th ? 200 : 700)) if (is_prime(p)) { add(p, np % 2 ? "uni" : rsig(g), "1:0", ALL); add(2 * p, "uni", "1:0", ALL); np++; }
    if (kind == 'b') { np = 0; for (size_t p = 32771 + 2 * g.below(20000); np < (th ? 40 : 6); p += 2) if (is_prime(p)) { add(p, "uni", tlist(g, 2), ALL); np++; p += 2 * g.below(20000); } }
    else { np = 0; for (size_t p = 5003 + 2 * g.below(500); np < (th ? 6 : 2); p += 2) if (is_prime(p)) { size_t m = p * (np % 2 ? 8 : 7); add(m, "uni", tlist(g, 1, false), BES[np % 3]); np++; p += 2 * g.below(1000); } }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) out.push_back(x.s);
}
static RegP c01("C01", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('c', "fwd,fwd0,fwdu,fwdn", th, s, o); });
static RegP c02("C02", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('c', "inv,inv0,invu,invn", th, s, o); });
static RegP c03("C03", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('r', "fwd,fwd0,fwdu,fwdn", th, s, o); });
static RegP c04("C04", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('r', "inv,inv0,invu,invn", th, s, o); });
static RegP c05("C05", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('d', "fwd,fwd0,fwdn,inv,inv0,invn", th, s, o); });
static RegP c06("C06", [](bool th, uint64_t s, std::vector<std::string>& o) { gen_xf('b', "fwd,fwd0,fwdu,fwdn,inv,inv0,invu,invn", th, s, o); });

// C15: the same lengths and signals against the tight bound, and exact homogeneity
static RegP c15("C15", [](bool th, uint64_t s, std::vector<std::string>& o) {
    std::vector<std::string> all;
    Rng g(s * 77777 + 15);
    int part = 0;
    for (char kind : {'c', 'r', 'd', 'b'}) {
        std::vector<std::string> v; std::string ops; for (auto& op : ops_of(kind)) ops += (ops.empty() ? "" : ",") + op;
        gen_xf(kind, kind == 'd' || th ? ops.c_str() : "fwd0,fwdu,inv0,invn", th, s + 500 + part++, v, "t");
        // quick: some of the C01..C06 style cases
        std::map<std::string, int> seen;
        for (size_t i = 0; i < v.size(); i++) {
            Case c(Case::parse(v[i])); size_t n = c.num("n");
            // every power of two; those above 2^20 in one backend each unless complex, which the others are built on
            bool first = is_pow2(n) && n >= 4096 && seen[c.get("n") + (n > (1u << 20) && kind != 'c' ? "" : c.get("be"))]++ == 0;
            if (th || first || g.below(i >= 80 ? 4 : 8) == 0) all.push_back(v[i]);
        }
        bool even = kind == 'r' || kind == 'd';
        auto hom = [&](size_t n, const std::string& T) {
            if (even && (n & 1)) n++;
            std::string es; es += fmt("%ld", (long)g.range(-700, 700)); es += fmt(",%ld", (long)g.pick({-700, -1, 1, 52, 700})); es += ",neg,nz,zero";
            all.push_back(fmt("hom kind=%c n=%zu be=%s op=%s T=%s e=%s sig=%s seed=%llu off=%d", kind, n, ALL, (th ? ops : even || kind == 'c' || kind == 'b' ? std::string("fwd0,inv0,") + g.pick({"fwd", "fwdn", "inv", "invn"}) : ops).c_str(), T.c_str(), es.c_str(), g.chance(0.5) ? "holes" : "uni", (unsigned long long)g.below(1000000000), (int)g.below(2)));
        };
        for (size_t n = even ? 2 : 1; n <= (th ? 1200u : 260u); n += even ? 2 : 1) hom(n, "1:0");
        for (int k = 1; k <= (th ? 18 : 15); k++) hom((size_t)1 << k, tlist(g, 1, k < 13));
        for (int i = 0; i < (th ? 600 : 40); i++) hom(260 + g.below(8000), "1:0");
        for (int i = 0; i < (th ? 120 : 8); i++) hom(smooth(g, 8000, 100000), tlist(g, 1, false));
    }
    for (auto& x : all) o.push_back(x);
});
// C21: non-finite data, and data at the ends of the range
static RegP c21("C21", [](bool th, uint64_t s, std::vector<std::string>& o) {
    Rng g(s * 52361 + 21); std::vector<Q> q;
    for (char kind : {'c', 'r', 'd', 'b'}) {
        bool even = kind == 'r' || kind == 'd'; std::string ops; for (auto& op : ops_of(kind)) ops += (ops.empty() ? "" : ",") + op;
        auto add = [&](size_t n, std::string T, bool all) {
            if (even && (n & 1)) n++;
            if (n < (even ? 2u : 1u)) n = even ? 2 : 1;
            size_t h = even ? n / 2 : n; if (kind != 'b' && (double)h * max_prime(h) > 1e8) return;
            const char* be = all ? ALL : BES[g.below(3)]; double w = (double)n * log2(n + 2.0) * (kind == 'b' ? 6 : 1) * (all ? 3 : 1) + (kind == 'b' ? 0 : (double)h * max_prime(h));
            q.push_back(Q{fmt("nf kind=%c n=%zu be=%s op=%s T=%s seed=%llu off=%d reps=%d", kind, n, be, ops.c_str(), T.c_str(), (unsigned long long)g.below(1000000000), (int)g.below(2), n <= 8192 ? 4 : 3), 8 * w});
            std::string es = fmt("max,%d", kind == 'b' ? -(int)g.range(820, 900) : -(int)g.range(930, 1000)); if (n <= 4096 || th) es += fmt(",%d,%d", (int)g.range(-900, 900), -(int)g.range(980, 1020));
            if (kind == 'b') es = n <= 4096 || th ? fmt("max,%d,%d", -(int)g.range(820, 900), (int)g.range(-800, 700)) : es;
            q.push_back(Q{fmt("rng kind=%c n=%zu be=%s op=%s T=%s sig=%s e=%s seed=%llu off=%d", kind, n, be, ops.c_str(), T.c_str(), g.chance(0.6) ? "uni" : g.chance(0.5) ? "const" : rsig(g).c_str(), es.c_str(), (unsigned long long)g.below(1000000000), (int)g.below(2)), 10 * w});
        };
        for (size_t n = even ? 2 : 1; n <= (th ? 1500u : 200u); n += even ? 2 : 1) add(n, "1:0", true);
        for (int k = 0; k <= (th ? 21 : 18); k++) { add((size_t)1 << k, tlist(g, 1, k <= 13), k <= 16); if (k >= 12) add((size_t)1 << k, "1:0", false); }
        for (int i = 0; i < (th ? 800 : 60); i++) add(200 + g.below(12000), "1:0", false);
        for (int i = 0; i < (th ? 600 : 40); i++) add(smooth(g, 200, 32768), "1:0", true);
        for (int i = 0; i < (th ? 300 : 24); i++) add((even ? 2 : 1) * smooth(g, 32769, 120000), tlist(g, 1, false), false);
        for (int i = 0; i < (th ? 60 : 6); i++) add(kind == 'b' ? 16384 + g.below(120000) : 32768 + 8 * g.below(3000), tlist(g, 1, i % 2 == 0), false);
    }
    std::stable_sort(q.begin(), q.end(), [](const Q& a, const Q& b) { return a.cost > b.cost; });
    for (auto& x : q) o.push_back(x.s);
});
// C17: the library compiled in other ways. Part 'A'/'B' only tells the replay which executable to use; the three backend
// names stand for three configurations (vlib/build.py CFGS).
static void gen_cfg(bool th, uint64_t s, std::vector<std::string>& o)
{
    Rng g(s * 9176 + 17); int part = 0; std::vector<std::string> rest;
    for (char kind : {'c', 'r', 'd', 'b'}) {
        std::string ops; for (auto& op : ops_of(kind)) ops += (ops.empty() ? "" : ",") + op;
        std::vector<std::string> v; gen_xf(kind, ops, th, s + 900 + part++, v, "l");
        for (auto& x : v) {
            size_t n = Case(Case::parse(x)).num("n"); bool p2 = is_pow2(n), small = n <= 130;
            if (th || (p2 && n <= (1u << 16) && g.chance(0.6)) || (p2 && n > (1u << 16) && n <= (1u << 21) && g.chance(0.7)) || (p2 && n > (1u << 21) && g.chance(0.34)) || (small && g.chance(0.7)) || g.chance(0.12)) (n > 100000 ? o : rest).push_back(x);
        }
    }
    for (auto& x : rest) o.push_back(x);
}
static RegP c17("C17", gen_cfg);
