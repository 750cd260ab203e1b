// C14: lengths and prime factors large enough for products of indices to leave 32 bits.
#include "xf.h"
#include <algorithm>
static bool prime(size_t n) { return n > 1 && max_prime(n) == n; }
static size_t prime_from(size_t n) { while (!prime(n)) n++; return n; }
static RegP c14("C14", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 4001 + 14);
    static const char* BE[] = {"sse2", "avx", "avx2"}; int rot = (int)g.below(3);
    // teams so large that (elements * member number) leaves 32 bits, too
    int tc = (int)g.below(3);
    auto T = [&]() { return fmt("%d:%d", tc++ % 3 == 0 ? (int)g.pick({1, 2, 3, 4, 7, 8}) : 129 + (int)g.below(128), (int)g.below(1000)); };
    auto put = [&](char kind, size_t n, const std::string& be, const std::string& op, const char* sig, int guard) {
        out.push_back(fmt("xf kind=%c n=%zu be=%s op=%s T=%s sig=%s seed=%llu off=0 late=%d tol=l g=%d", kind, n, be.c_str(), op.c_str(), T().c_str(), sig, (unsigned long long)g.below(1000000), (int)g.below(2), guard)); };
    auto next = [&]() { return std::string(BE[rot++ % 3]); };
    // a prime factor whose square exceeds 2^31, in the butterfly for arbitrary radices
    size_t p = prime_from(46349 + g.below(1500));
    for (auto be : BE) { put('c', p, be, "fwd0", "uni", 1); put('c', p, be, "inv0", "uni", 1); }
    put('c', prime_from(46349 + g.below(6000)), next(), g.chance(0.5) ? "fwdu" : "invn", "delta", 1);
    if (th) { for (auto be : BE) { put('c', 2 * p, be, "fwdu", "uni", 1); put('c', 2 * p, be, "invu", "uni", 1); } put('r', 2 * p, next(), "fwd0,inv0", "uni", 1); put('d', 2 * p, next(), "fwd0,inv0", "uni", 1); put('c', prime_from(65537), next(), "fwd0,inv0", "uni", 1); put('c', prime_from(92683), next(), "fwd0,inv0", "uni", 1); }
    // complex lengths past the power-of-two engines and mixed ones of the same size
    for (auto be : BE) put('c', (size_t)1 << 25, be, "fwd0,inv0", "closed", 1);
    put('c', (size_t)1 << 26, next(), "fwd0,inv0", "closed", 1);
    put('c', (size_t)3 << 23, next(), "fwdu,inv0", "closed", 1);
    put('c', (size_t)7 << 22, next(), "fwd0,invn", "closed", 1);
    put('c', 43046721, next(), "fwd0,inv0", "closed", 1);
    put('c', 48828125, next(), "fwd0,inv0", "closed", 1);
    for (auto be : BE) { put('r', (size_t)1 << 26, be, be == BE[0] ? "fwd0" : "inv0", "closed", 1); put('d', (size_t)1 << 26, be, be == BE[1] ? "fwd0" : "inv0", "closed", 1); }
    put('r', (size_t)1 << 26, next(), "fwdu,inv0", "closed", 1);
    put('d', (size_t)1 << 26, next(), "fwd0", "closed", 1);
    put('r', (size_t)6 << 23, next(), "fwd0,invn", "closed", 1);
    put('d', (size_t)6 << 23, next(), "fwd0,invn", "closed", 1);
    // Bluestein: the square of the index leaves 32 bits from 46342 on, and 64-bit products stay far away
    for (auto be : BE) put('b', ((size_t)1 << 22) + 1 + g.below(1 << 22), be, be == BE[rot % 3] ? "fwd0,inv0" : g.chance(0.5) ? "fwdu" : "inv0", "closed", 1);
    if (th) for (auto be : BE) { put('b', ((size_t)1 << 24) + g.below(1 << 20), be, "fwd0,invn", "closed", 1); put('b', ((size_t)1 << 23) + g.below(1 << 22), be, "fwdn,inv0", "closed", 1); }
    for (int i = 0; i < (th ? 400 : 36); i++) put('b', 46342 + g.below(th ? 400000 : 160000), next(), i % 2 ? "fwd0,inv0" : "fwdn,invu", i % 3 ? "uni" : "wide", 1);
    if (th) for (int i = 0; i < 60; i++) { // random smooth lengths of tens of millions
        size_t n = 1, hi = (size_t)1 << 26; while (n < ((size_t)1 << 24)) { int q = g.pick({2, 2, 2, 3, 5, 7, 11, 13}); n *= q; } if (n > hi) continue;
        char k = "crd"[i % 3]; if (k != 'c') n *= 2; put(k, n, next(), "fwd0,inv0", "closed", 1); }
});
// one at a time, because of the memory they take
static RegP c14h("C14huge", [](bool th, uint64_t seed, std::vector<std::string>& out) {
    Rng g(seed * 4003 + 14);
    static const char* BE[] = {"sse2", "avx", "avx2"}; int rot = (int)g.below(3);
    long avail = 1L << 50; if (FILE* f = fopen("/proc/meminfo", "r")) { char l[200]; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %ld", &avail) == 1) { avail *= 1024; break; } fclose(f); }
    // (a machine with too little memory for a case leaves it out)
    auto put = [&](char kind, size_t n, const char* op) { if ((double)n * (kind == 'b' ? 230 : 80) + 2e9 > (double)avail) { rot++; return; } out.push_back(fmt("xf kind=%c n=%zu be=%s op=%s T=%d:1 sig=closed seed=%llu off=0 late=0 tol=l g=0", kind, n, BE[rot++ % 3], op, (int)g.pick({1, 4, 8, 160}), (unsigned long long)g.below(1000000))); };
    // arrays of 2^31 bytes and more: byte counts, too, must not be kept in 32 bits
    if (!th) { rot = (int)g.below(3); bool f = g.chance(0.5);
        put('c', (size_t)1 << 27, f ? "fwd0" : "inv0"); put('r', (size_t)1 << 27, f ? "inv0" : "fwd0"); put('b', ((size_t)1 << 26) - g.below(1000), g.chance(0.5) ? "fwd0" : "inv0"); return; }
    for (int i = 0; i < 3; i++) put('c', (size_t)1 << 27, "fwd0,inv0");
    put('c', (size_t)1 << 28, "fwd0"); put('c', (size_t)1 << 28, "inv0"); put('c', (size_t)3 << 26, "fwd0,inv0"); put('c', 129140163, "fwd0,inv0"); put('c', 244140625, "fwd0");
    put('r', (size_t)1 << 28, "fwd0"); put('r', (size_t)1 << 28, "inv0"); put('d', (size_t)1 << 28, "fwd0"); put('d', (size_t)1 << 28, "inv0"); put('d', (size_t)1 << 27, "fwd0,inv0");
    put('b', (size_t)1 << 25, "fwd0"); put('b', ((size_t)1 << 25) + 12345, "inv0"); put('b', ((size_t)1 << 26) - 7, "fwd0");
});
