#include "ref.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <map>
#include <memory>

static const ld PI = 3.14159265358979323846264338327950288419716939937510L;

// exp(-2 pi i k / n), argument reduced exactly to an octant
static cld root(size_t k, size_t n)
{
    k %= n;
    size_t o = (8 * k) / n;                     // octant
    ld a = PI * (ld)((long long)(8 * k) - (long long)(o * n)) / (4 * (ld)n); // in [0, pi/4)
    ld c, s;
    switch (o) {
    case 0: c = cosl(a); s = sinl(a); break;
    case 1: { ld b = PI * (ld)((long long)(2 * n) - (long long)(8 * k)) / (4 * (ld)n); c = sinl(b); s = cosl(b); break; }
    case 2: { ld b = PI * (ld)((long long)(8 * k) - (long long)(2 * n)) / (4 * (ld)n); c = -sinl(b); s = cosl(b); break; }
    case 3: { ld b = PI * (ld)((long long)(4 * n) - (long long)(8 * k)) / (4 * (ld)n); c = -cosl(b); s = sinl(b); break; }
    case 4: { ld b = PI * (ld)((long long)(8 * k) - (long long)(4 * n)) / (4 * (ld)n); c = -cosl(b); s = -sinl(b); break; }
    case 5: { ld b = PI * (ld)((long long)(6 * n) - (long long)(8 * k)) / (4 * (ld)n); c = -sinl(b); s = -cosl(b); break; }
    case 6: { ld b = PI * (ld)((long long)(8 * k) - (long long)(6 * n)) / (4 * (ld)n); c = sinl(b); s = -cosl(b); break; }
    default: { ld b = PI * (ld)((long long)(8 * n) - (long long)(8 * k)) / (4 * (ld)n); c = cosl(b); s = -sinl(b); break; }
    }
    return cld{c, -s};
}

// small cache of root tables: exp(-2 pi i j / n), j < cnt
struct Table { size_t n; size_t cnt; std::vector<cld> w; };
static std::vector<std::unique_ptr<Table>> g_tabs;
static const cld* roots(size_t n, size_t cnt)
{
    for (auto& t : g_tabs) if (t->n == n && t->cnt >= cnt) return t->w.data();
    size_t total = 0;
    for (auto& t : g_tabs) total += t->cnt;
    if (total > (size_t(1) << 22)) g_tabs.clear();
    std::unique_ptr<Table> t(new Table);
    t->n = n; t->cnt = cnt; t->w.resize(cnt);
    for (size_t j = 0; j < cnt; j++) t->w[j] = root(j, n);
    g_tabs.push_back(std::move(t));
    return g_tabs.back()->w.data();
}

void ref_dft_direct(const cld* x, cld* out, size_t N)
{
    const cld* w = roots(N, N);
    for (size_t k = 0; k < N; k++) {
        ld sr = 0, si = 0;
        size_t idx = 0;
        for (size_t n = 0; n < N; n++) {
            const cld& t = w[idx];
            sr += x[n].re * t.re - x[n].im * t.im;
            si += x[n].re * t.im + x[n].im * t.re;
            idx += k; if (idx >= N) idx -= N;
        }
        out[k] = cld{sr, si};
    }
}

// recursive radix-2 decimation in time, n a power of two; table w for size T, stride T/n
static void fft2(const cld* x, size_t stride, cld* out, size_t n, const cld* w, size_t wstride)
{
    if (n == 1) { out[0] = x[0]; return; }
    if (n == 2) { cld a = x[0], b = x[stride]; out[0] = cld{a.re + b.re, a.im + b.im}; out[1] = cld{a.re - b.re, a.im - b.im}; return; }
    const size_t h = n / 2;
    fft2(x, 2 * stride, out, h, w, 2 * wstride);
    fft2(x + stride, 2 * stride, out + h, h, w, 2 * wstride);
    for (size_t k = 0; k < h; k++) {
        const cld t = w[k * wstride];
        const cld b = out[h + k];
        const cld bt = cld{b.re * t.re - b.im * t.im, b.re * t.im + b.im * t.re};
        const cld a = out[k];
        out[k] = cld{a.re + bt.re, a.im + bt.im};
        out[h + k] = cld{a.re - bt.re, a.im - bt.im};
    }
}
static void fft_pow2(const cld* x, cld* out, size_t n)
{
    const cld* w = n > 1 ? roots(n, n / 2) : nullptr;
    fft2(x, 1, out, n, w, 1);
}

static void bluestein(const cld* x, cld* out, size_t N)
{
    size_t L = 1;
    while (L < 2 * N - 1) L *= 2;
    std::vector<cld> a(L, cld{0, 0}), b(L, cld{0, 0}), A(L), B(L);
    std::vector<cld> ch(N);
    for (size_t n = 0; n < N; n++) {
        size_t q = (size_t)((unsigned __int128)n * n % (2 * N));
        ch[n] = root(q, 2 * N);                        // exp(-pi i n^2 / N)
        a[n] = cld{x[n].re * ch[n].re - x[n].im * ch[n].im, x[n].re * ch[n].im + x[n].im * ch[n].re};
        cld c = cld{ch[n].re, -ch[n].im};
        b[n] = c; if (n) b[L - n] = c;
    }
    fft_pow2(a.data(), A.data(), L);
    fft_pow2(b.data(), B.data(), L);
    for (size_t k = 0; k < L; k++) { cld u = A[k], v = B[k]; a[k] = cld{u.re * v.re - u.im * v.im, -(u.re * v.im + u.im * v.re)}; }
    fft_pow2(a.data(), A.data(), L);
    for (size_t k = 0; k < N; k++) {
        ld re = A[k].re / L, im = -A[k].im / L;
        out[k] = cld{re * ch[k].re - im * ch[k].im, re * ch[k].im + im * ch[k].re};
    }
}

void ref_dft(const cld* x, cld* out, size_t N)
{
    if (N == 0) return;
    if ((N & (N - 1)) == 0) fft_pow2(x, out, N);
    else if (N <= 192) ref_dft_direct(x, out, N);
    else {
        // peel factors of two (decimation in time) so that Bluestein works on the odd part
        size_t odd = N, tw = 1;
        while ((odd & 1) == 0) { odd >>= 1; tw <<= 1; }
        if (tw == 1) { bluestein(x, out, N); return; }
        size_t h = N / 2;
        std::vector<cld> e(h), o(h), E(h), O(h);
        for (size_t i = 0; i < h; i++) { e[i] = x[2 * i]; o[i] = x[2 * i + 1]; }
        ref_dft(e.data(), E.data(), h);
        ref_dft(o.data(), O.data(), h);
        for (size_t k = 0; k < h; k++) {
            cld t = root(k, N), b = O[k];
            cld bt = cld{b.re * t.re - b.im * t.im, b.re * t.im + b.im * t.re};
            out[k] = cld{E[k].re + bt.re, E[k].im + bt.im};
            out[k + h] = cld{E[k].re - bt.re, E[k].im - bt.im};
        }
    }
}

void ref_dct2_direct(const ld* x, ld* out, size_t N)
{
    const cld* w = roots(4 * N, 4 * N);
    for (size_t k = 0; k < N; k++) {
        ld s = 0;
        size_t idx = k % (4 * N), step = 2 * k % (4 * N);
        for (size_t n = 0; n < N; n++) { s += x[n] * w[idx].re; idx += step; if (idx >= 4 * N) idx -= 4 * N; }
        out[k] = s;
    }
}
void ref_dct3_direct(const ld* X, ld* out, size_t N)
{
    const cld* w = roots(4 * N, 4 * N);
    for (size_t n = 0; n < N; n++) {
        ld s = X[0];
        size_t idx = 0, step = 2 * n + 1;
        for (size_t k = 1; k < N; k++) { idx += step; if (idx >= 4 * N) idx -= 4 * N; s += 2 * X[k] * w[idx].re; }
        out[n] = s;
    }
}
void ref_dct2(const ld* x, ld* out, size_t N)
{
    if (N <= 96) { ref_dct2_direct(x, out, N); return; }
    // samples at the odd positions of a 4N-long sequence: its DFT's real part is the DCT-II
    std::vector<cld> a(4 * N, cld{0, 0}), A(4 * N);
    for (size_t n = 0; n < N; n++) a[2 * n + 1].re = x[n];
    ref_dft(a.data(), A.data(), 4 * N);
    for (size_t k = 0; k < N; k++) out[k] = A[k].re;
}
void ref_dct3(const ld* X, ld* out, size_t N)
{
    if (N <= 96) { ref_dct3_direct(X, out, N); return; }
    std::vector<cld> a(4 * N, cld{0, 0}), A(4 * N);
    a[0].re = X[0];
    for (size_t k = 1; k < N; k++) a[k].re = 2 * X[k];
    ref_dft(a.data(), A.data(), 4 * N);
    for (size_t n = 0; n < N; n++) out[n] = A[2 * n + 1].re;
}

bool ref_selftest()
{
    Rng r(12345);
    for (size_t N : {1, 2, 3, 4, 5, 7, 8, 12, 16, 27, 31, 64, 100, 128, 193, 194, 210, 251, 256, 360, 509, 512}) {
        std::vector<cld> x(N), a(N), b(N);
        ld e = 0, m = 0;
        for (auto& v : x) v = cld{r.sym(), r.sym()};
        // definition evaluated straight from the formula, without the tables
        for (size_t k = 0; k < N; k++) {
            ld sr = 0, si = 0;
            for (size_t n = 0; n < N; n++) {
                ld t = -2 * PI * (ld)((k * n) % N) / (ld)N;
                sr += x[n].re * cosl(t) - x[n].im * sinl(t);
                si += x[n].re * sinl(t) + x[n].im * cosl(t);
            }
            b[k] = cld{sr, si};
        }
        ref_dft(x.data(), a.data(), N);
        for (size_t k = 0; k < N; k++) { e = std::max(e, std::max(fabsl(a[k].re - b[k].re), fabsl(a[k].im - b[k].im))); m = std::max(m, fabsl(b[k].re)); }
        ref_dft_direct(x.data(), a.data(), N);
        for (size_t k = 0; k < N; k++) e = std::max(e, std::max(fabsl(a[k].re - b[k].re), fabsl(a[k].im - b[k].im)));
        if (!(e <= 1e-16L * (m + 1))) return false;
        std::vector<ld> y(N), c(N), d(N), c2(N);
        for (auto& v : y) v = r.sym();
        for (size_t k = 0; k < N; k++) {
            ld s = 0, t = y[0];
            for (size_t n = 0; n < N; n++) s += y[n] * cosl(PI * (ld)k * (ld)(2 * n + 1) / (2 * (ld)N));
            for (size_t n = 1; n < N; n++) t += 2 * y[n] * cosl(PI * (ld)n * (ld)(2 * k + 1) / (2 * (ld)N));
            d[k] = s; c2[k] = t;
        }
        e = 0;
        ref_dct2(y.data(), c.data(), N);
        for (size_t k = 0; k < N; k++) e = std::max(e, fabsl(c[k] - d[k]));
        ref_dct3(y.data(), c.data(), N);
        for (size_t k = 0; k < N; k++) e = std::max(e, fabsl(c[k] - c2[k]));
        if (!(e <= 1e-15L * 64)) return false;
        if (!(e <= 2e-16L * (ld)N)) return false;
    }
    return true;
}
