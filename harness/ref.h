// Extended-precision reference transforms, independent of the library under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <complex>
typedef long double ld;
struct cld { ld re, im; };

// out[k] = sum_n x[n] exp(-2 pi i k n / N)
void ref_dft(const cld* x, cld* out, size_t N);
// O(N^2) definition, used for small N and to validate the fast one
void ref_dft_direct(const cld* x, cld* out, size_t N);
// X[k] = sum_n x[n] cos(pi k (2n+1) / (2N))
void ref_dct2(const ld* x, ld* out, size_t N);
// x[n] = X[0] + 2 sum_{k>=1} X[k] cos(pi k (2n+1) / (2N))
void ref_dct3(const ld* X, ld* out, size_t N);
void ref_dct2_direct(const ld* x, ld* out, size_t N);
void ref_dct3_direct(const ld* x, ld* out, size_t N);
bool ref_selftest();

struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t& z) { z += 0x9E3779B97F4A7C15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = mix(seed); }
    uint64_t next() { auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
    double sym() { return 2 * unit() - 1; }
    bool chance(double p) { return unit() < p; }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
    template <class V> typename V::value_type pickv(const V& v) { return v[below(v.size())]; }
};
static inline uint64_t hash64(const char* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } uint64_t z = h; return Rng::mix(z); }
