// Compiled once per variant: -DCXV=<name> -DCXALIGN=<n> -DCXCPU="..."; the namespace is renamed so that the
// inline functions of one variant never stand in for those of another.
#include "cx.h"
#include "valloc.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <new>
#include <complex>
#include <type_traits>
#include <immintrin.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OTFFT CAT(OTFFT_CX_, CXV)
#include "otfft_types.h"
#define S2(x) #x
#define S1(x) S2(x)
namespace {
using namespace OTFFT;
typedef long double ld; typedef std::complex<ld> cl;
const ld E = 2.220446049250313e-16L;
cl L(const double* p) { return cl(p[0], p[1]); }
struct Out { double* g; ld* w; ld* t; int* n;
    void z(const complex_t& a, cl b, ld tol) { g[*n] = a.Re; g[*n + 1] = a.Im; w[*n] = b.real(); w[*n + 1] = b.imag(); t[*n / 2] = tol; *n += 2; }
    void d(double a, ld b, ld tol) { z(complex_t(a, 0), cl(b, 0), tol); }
    void s(const std::complex<double>& a, cl b, ld tol) { z(complex_t(a.real(), a.imag()), b, tol); } };
ld A(cl z) { return hypotl(z.real(), z.imag()); }
// 'long double' sums of two doubles rounded to double: the exactly rounded result up to double rounding
ld sumtol(ld x, ld y) { return (fabsl(x) + fabsl(y)) * E; }
#define OP(NAME, NIN, ...) const char* CAT(f_, NAME)(const double* in, double* got_, ld* want_, ld* tol_, int* nout_) { Out o{got_, want_, tol_, nout_}; const double *pa = in, *pb = in + 2, *pc = in + 4; (void)pa; (void)pb; (void)pc; __VA_ARGS__; return nullptr; }
#define MA complex_t a(pa[0], pa[1])
#define MB complex_t b(pb[0], pb[1])
#define MC complex_t c(pc[0], pc[1])
std::complex<double> take(std::complex<double> z) { return z; }
complex_t give(complex_t z) { return z; }
OP(ctor, 2, complex_t z; o.z(z, 0, 0); o.z(complex_t(pa[0]), cl(pa[0], 0), 0); o.z(complex_t(pa[0], pa[1]), L(pa), 0); complex_t v = pa[1]; o.z(v, cl(pa[1], 0), 0))
OP(value, 2, MA; complex_t b = a; complex_t c; c = a; o.z(b, L(pa), 0); o.z(c, L(pa), 0); c = pa[0]; o.z(c, cl(pa[0], 0), 0); complex_t* h = new complex_t[2]; o.z(h[1], 0, 0); delete[] h)
OP(fromstd, 2, std::complex<double> s(pa[0], pa[1]); complex_t a(s); o.z(a, L(pa), 0); complex_t b; b = s; o.z(b, L(pa), 0); o.z(give(s), L(pa), 0))
OP(tostd, 2, MA; std::complex<double> s = a; o.s(s, L(pa), 0); o.s(take(a), L(pa), 0); o.s((std::complex<double>)a, L(pa), 0); const complex_t& r = a; s = r; o.s(s, L(pa), 0))
OP(reim, 2, MA; o.d(Re(a), pa[0], 0); o.d(Im(a), pa[1], 0); a.Re = pa[1]; a.Im = pa[0]; o.d(Re(a), pa[1], 0); o.d(Im(a), pa[0], 0))
OP(layout, 4, complex_t v[2]; v[0] = complex_t(pa[0], pa[1]); v[1] = complex_t(pb[0], pb[1]);
    if (sizeof(complex_t) != 16 || alignof(complex_t) > 16 || !std::is_standard_layout<complex_t>::value || !std::is_trivially_copyable<complex_t>::value) return "complex_t is not two doubles";
    double d[4]; memcpy(d, v, 32); o.z(complex_t(d[0], d[1]), L(pa), 0); o.z(complex_t(d[2], d[3]), L(pb), 0);
    if ((char*)&v[0].Re != (char*)&v[0] || (char*)&v[0].Im != (char*)&v[0] + 8) return "components at unexpected offsets")
OP(addeq, 4, MA; MB; complex_t& r = (a += b); if (&r != &a) return "+= does not return its left operand"; o.z(a, L(pa) + L(pb), sumtol(A(L(pa)), A(L(pb)))); o.z(b, L(pb), 0))
OP(subeq, 4, MA; MB; complex_t& r = (a -= b); if (&r != &a) return "-= does not return its left operand"; o.z(a, L(pa) - L(pb), sumtol(A(L(pa)), A(L(pb)))); o.z(b, L(pb), 0))
OP(muleqd, 3, MA; double s = pb[0]; complex_t& r = (a *= s); if (&r != &a) return "*= does not return its left operand"; o.z(a, L(pa) * (ld)pb[0], 4 * E * A(L(pa)) * fabsl(pb[0])); o.d(s, pb[0], 0))
OP(diveqd, 3, MA; double s = pb[0]; complex_t& r = (a /= s); if (&r != &a) return "/= does not return its left operand"; o.z(a, L(pa) / (ld)pb[0], 4 * E * A(L(pa)) / fabsl(pb[0])); o.d(s, pb[0], 0))
OP(muleq, 4, MA; MB; complex_t& r = (a *= b); if (&r != &a) return "*= does not return its left operand"; o.z(a, L(pa) * L(pb), 4 * E * A(L(pa)) * A(L(pb))); o.z(b, L(pb), 0))
OP(selfadd, 2, MA; a += a; o.z(a, L(pa) + L(pa), 0); complex_t b(pa[0], pa[1]); b -= b; o.z(b, 0, 0))
OP(selfmul, 2, MA; a *= a; o.z(a, L(pa) * L(pa), 4 * E * A(L(pa)) * A(L(pa))))
OP(selfscale, 2, MA; a *= a.Re; o.z(a, L(pa) * (ld)pa[0], 4 * E * A(L(pa)) * fabsl(pa[0])); complex_t b(pa[0], pa[1]); b *= b.Im; o.z(b, L(pa) * (ld)pa[1], 4 * E * A(L(pa)) * fabsl(pa[1])))
OP(selfdiv, 2, MA; a /= a.Re; o.z(a, L(pa) / (ld)pa[0], 4 * E * A(L(pa)) / fabsl(pa[0])); complex_t b(pa[0], pa[1]); b /= b.Im; o.z(b, L(pa) / (ld)pa[1], 4 * E * A(L(pa)) / fabsl(pa[1])))
OP(add, 4, MA; MB; o.z(a + b, L(pa) + L(pb), sumtol(A(L(pa)), A(L(pb)))); o.z(a + pb[0], L(pa) + cl(pb[0], 0), sumtol(A(L(pa)), fabsl(pb[0]))); o.z(a, L(pa), 0); o.z(b, L(pb), 0))
OP(sub, 4, MA; MB; o.z(a - b, L(pa) - L(pb), sumtol(A(L(pa)), A(L(pb)))); o.z(pb[0] - a, cl(pb[0], 0) - L(pa), sumtol(A(L(pa)), fabsl(pb[0]))))
OP(scale, 3, MA; o.z(pb[0] * a, L(pa) * (ld)pb[0], 4 * E * A(L(pa)) * fabsl(pb[0])); o.z(a * pb[0], L(pa) * (ld)pb[0], 4 * E * A(L(pa)) * fabsl(pb[0])); o.z(a / pb[0], L(pa) / (ld)pb[0], 4 * E * A(L(pa)) / fabsl(pb[0])))
OP(mul, 4, MA; MB; o.z(a * b, L(pa) * L(pb), 4 * E * A(L(pa)) * A(L(pb))); o.z(a, L(pa), 0); o.z(b, L(pb), 0))
OP(div, 4, MA; MB; cl q = L(pa) * cl(pb[0], -(ld)pb[1]) / ((ld)pb[0] * pb[0] + (ld)pb[1] * pb[1]); o.z(a / b, q, 8 * E * A(L(pa)) / A(L(pb))); o.z(a, L(pa), 0); o.z(b, L(pb), 0))
OP(rdiv, 3, MB; cl q = cl(pa[0], 0) * cl(pb[0], -(ld)pb[1]) / ((ld)pb[0] * pb[0] + (ld)pb[1] * pb[1]); o.z(pa[0] / b, q, 8 * E * fabsl(pa[0]) / A(L(pb))))
OP(norm, 2, MA; ld w = (ld)pa[0] * pa[0] + (ld)pa[1] * pa[1]; o.d(norm(a), w, 4 * E * w); a *= 2.0; o.d(norm(a), 4 * w, 16 * E * w))
OP(abs, 2, MA; ld w = A(L(pa)); o.d(abs(a), w, 4 * E * w); a = complex_t(pa[1], pa[0]) * 2.0; o.d(abs(a), 2 * w, 8 * E * w))
OP(arg, 2, MA; ld w = atan2l(pa[1], pa[0]); o.d(arg(a), w, 4 * E * fabsl(w)); a = conj(a); o.d(arg(a), atan2l(-pa[1], pa[0]), 4 * E * fabsl(w)))
OP(conj, 2, MA; o.z(conj(a), cl(pa[0], -(ld)pa[1]), 0); a = conj(a); o.z(a, cl(pa[0], -(ld)pa[1]), 0); o.z(conj(a), L(pa), 0))
OP(jx, 2, MA; o.z(jx(a), cl(-(ld)pa[1], pa[0]), 0); a = jx(a); o.z(a, cl(-(ld)pa[1], pa[0]), 0); o.z(jx(a), -L(pa), 0))
OP(mjx, 2, MA; o.z(mjx(a), cl(pa[1], -(ld)pa[0]), 0); a = mjx(a); o.z(a, cl(pa[1], -(ld)pa[0]), 0); o.z(mjx(a), -L(pa), 0); o.z(jx(a), L(pa), 0))
OP(neg, 2, MA; o.z(neg(a), -L(pa), 0); a = neg(a); o.z(a, -L(pa), 0))
OP(polar, 3, double r = fabs(pb[0]), th = fmod(pa[0], 40.0); o.z(polar(r, th), cl(r * cosl(th), r * sinl(th)), 4 * E * r))
OP(expj, 1, double th = fmod(pa[0], 1000.0); o.z(expj(th), cl(cosl(th), sinl(th)), 4 * E); o.z(expj(-th), cl(cosl(th), -sinl(th)), 4 * E))
OP(chain, 6, MA; MB; MC; cl w = L(pa) * L(pb); ld m = A(w); w -= L(pc); m += A(L(pc)); o.z((a *= b) -= c, w, 8 * E * m); o.z(a, w, 8 * E * m))
OP(expr, 6, MA; MB; MC; cl w = L(pa) * L(pb) + cl(-(ld)pc[1], pc[0]) - cl(pa[0], -(ld)pa[1]); ld m = A(L(pa)) * A(L(pb)) + A(L(pc)) + A(L(pa)); o.z(a * b + jx(c) - conj(a), w, 12 * E * m))
OP(loop, 6, complex_t v[3] = {complex_t(pa[0], pa[1]), complex_t(pb[0], pb[1]), complex_t(pc[0], pc[1])}; ld m = 0; ld w = 0; double g = 0; for (int k = 0; k < 2; k++) { for (int i = 0; i < 3; i++) { g += norm(v[i]); w += (ld)v[i].Re * v[i].Re + (ld)v[i].Im * v[i].Im; v[i] *= v[(i + 1) % 3].Re > 0 ? 2.0 : -0.5; } } m = w; o.d(g, w, 16 * E * m))
#define R(N, K) {#N, K, CAT(f_, N)}
const CxOp ops[] = { R(ctor, 2), R(value, 2), R(fromstd, 2), R(tostd, 2), R(reim, 2), R(layout, 4), R(addeq, 4), R(subeq, 4), R(muleqd, 3), R(diveqd, 3), R(muleq, 4), R(selfadd, 2), R(selfmul, 2), R(selfscale, 2), R(selfdiv, 2), R(add, 4), R(sub, 4), R(scale, 3), R(mul, 4), R(div, 4), R(rdiv, 4), R(norm, 2), R(abs, 2), R(arg, 2), R(conj, 2), R(jx, 2), R(mjx, 2), R(neg, 2), R(polar, 3), R(expj, 1), R(chain, 6), R(expr, 6), R(loop, 6) };
template <class T> T mk(int v) { return T(v % 97); }
template <class T> int un(const T& v) { return (int)v; }
template <> complex_t mk<complex_t>(int v) { return complex_t(v % 97, -(v % 97 % 13)); }
template <> int un<complex_t>(const complex_t& v) { return v.Im == -(double)((int)v.Re % 13) ? (int)v.Re : -1; }
template <class T> struct SA : CxArr {
    simd_array<T>* a;
    alignas(simd_array<T>) char room[sizeof(simd_array<T>)];
    SA(int n, bool sized) : a(nullptr) { LibScope s; a = sized ? new (room) simd_array<T>(n) : new (room) simd_array<T>(); }
    ~SA() { LibScope s; if (a) a->~simd_array<T>(); }
    void setup(int n) { LibScope s; a->setup(n); }
    void destroy() { LibScope s; a->destroy(); }
    void* ptr() { return (void*)a->operator&(); }
    size_t elem() { return sizeof(T); }
    void put(int i, int v) { (*a)[i] = mk<T>(v); }
    int get(int i) { const simd_array<T>& c = *a; const T* q = c.operator&(); int v = un(c[i]); return v == un(q[i]) && v == un((*a)[i]) ? v : -1; }
};
struct SM : CxArr { // plain simd_malloc / simd_free, as README shows
    double* p; SM(int n, bool sized) : p(nullptr) { if (sized) setup(n); }
    ~SM() { destroy(); }
    void setup(int n) { LibScope s; if (p) simd_free(p); p = (double*)simd_malloc(n * sizeof(double)); if (!p) throw std::bad_alloc(); }
    void destroy() { LibScope s; if (p) simd_free(p); p = nullptr; }
    void* ptr() { return p; }
    size_t elem() { return 8; }
    void put(int i, int v) { p[i] = v % 97; }
    int get(int i) { return (int)p[i]; }
};
CxArr* make(int type, int n, bool sized)
{
    switch (type) { case 0: return new SA<complex_t>(n, sized); case 1: return new SA<double>(n, sized); case 2: return new SA<float>(n, sized); case 3: return new SA<signed char>(n, sized); default: return new SM(n, sized); }
}
struct Reg { CxVar v; Reg() { v = CxVar{S1(CXV), CXCPU, CXALIGN, ops, (int)(sizeof ops / sizeof *ops), make, cx_vars}; cx_vars = &v; } } reg;
}
